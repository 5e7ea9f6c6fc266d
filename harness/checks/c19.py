from checks import sampling


def run(c):
    sampling.model(c)
    scs = [sampling.rated(c.rng, c.n(1400, 3000)) for _ in range(c.n(56, 500))]
    scs += [sampling.shaped(c.rng, c.n(2000, 3000)) for _ in range(c.n(24, 200))]
    scs += [sampling.shaped(c.rng, c.n(1000, 2000), sampling.turns) for _ in range(c.n(20, 160))]
    scs += [sampling.shaped(c.rng, c.n(1000, 2000), sampling.fan) for _ in range(c.n(8, 80))]
    c.rng.shuffle(scs)
    c.validate('SamplingTrace', c.drive('sampling', scs, limit=120), batch=c.n(8, 16))
