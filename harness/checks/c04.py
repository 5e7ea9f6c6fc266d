from checks import stats as S
F = ['ResidenceTimesExact', 'TransitionCountsExact', 'DataUntouched']
def run(c):
    S.model(c)
    scs = [S.scenario(c.rng, F) for _ in range(c.n(200, 2500))]
    scs += [S.scenario(c.rng, F, maxcard=7, lens=(60, 120)) for _ in range(c.n(12, 300))]
    scs += [S.exact(c.rng, F) for _ in range(c.n(120, 1500))]
    scs += [S.large(c.rng, F) for _ in range(c.n(14, 120))]
    scs += [S.long(c.rng, F, c.n(1500, 6000)) for _ in range(c.n(6, 24))]
    scs += [S.bulk(c.rng, F, c.n(400000, 1000000)) for _ in range(c.n(8, 60))]
    c.rng.shuffle(scs)
    c.validate('StatsTrace', c.drive('stats', scs, limit=30), batch=40)
