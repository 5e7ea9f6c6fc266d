from checks import netgen


def run(c):
    netgen.model(c)
    c.validate('NetGenTrace', c.drive('netgen', [netgen.params(c.rng) for _ in range(c.n(300, 5000))], limit=120), batch=50)
