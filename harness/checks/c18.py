from checks import sampling


def run(c):
    sampling.model(c)
    scs = [sampling.valid(c.rng) for _ in range(c.n(420, 6000))]
    scs += [sampling.valid(c.rng, rows=(300, 600)) for _ in range(c.n(16, 200))]
    c.validate('SamplingTrace', c.drive('sampling', scs, limit=60), batch=80)
