from checks import stats as S
F = ['IntensitiesExact', 'StoredStatistics', 'OneMatrixPerConfiguration']
def run(c):
    S.model(c)
    scs = [S.scenario(c.rng, F, lens=(2, 9, 30)) for _ in range(c.n(150, 2000))]
    scs += [S.direct(c.rng, F) for _ in range(c.n(100, 1500))]
    scs += [S.large(c.rng, F) for _ in range(c.n(10, 100))]
    scs += [S.long(c.rng, F, c.n(1500, 6000)) for _ in range(c.n(6, 24))]
    c.rng.shuffle(scs)
    c.validate('StatsTrace', c.drive('stats', scs, limit=30), batch=40)
