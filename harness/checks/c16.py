from checks import netgen


def run(c):
    netgen.model(c)
    scs = [netgen.graphs(c.rng) for _ in range(c.n(400, 5000))]
    scs += [netgen.graphs(c.rng, c.rng.randint(7, 13)) for _ in range(c.n(25, 300))]
    scs += [netgen.statistics(c.rng, c.n(1500, 4000)) for _ in range(c.n(16, 80))]
    scs += [netgen.totals(c.rng, c.n(40000, 150000)) for _ in range(c.n(14, 60))]
    c.validate('NetGenTrace', c.drive('netgen', scs, limit=120), batch=100)
