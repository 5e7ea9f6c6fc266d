from checks import stats as S
F = ['ConfigurationsEnumerated', 'SelectionExact', 'OneMatrixPerConfiguration', 'ResidenceTimesExact', 'TransitionCountsExact']
def run(c):
    S.model(c)
    scs = [S.scenario(c.rng, F, filters=3) for _ in range(c.n(150, 2000))]
    scs += [S.combos(c.rng, F) for _ in range(c.n(150, 2000))]
    scs += [S.large(c.rng, F, filters=4) for _ in range(c.n(14, 100))]
    scs += [S.many(c.rng, F) for _ in range(c.n(6, 40))]
    c.rng.shuffle(scs)
    c.validate('StatsTrace', c.drive('stats', scs, limit=30), batch=40)
