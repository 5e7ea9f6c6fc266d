from checks import score as S, stats
def run(c):
    S.model(c)
    stats.model(c)
    scs = [S.estimator(c.rng) for _ in range(c.n(200, 2500))] + [S.estimator(c.rng, 10, ns=(5, 6)) for _ in range(c.n(30, 400))]
    scs += [S.sweep(c.rng) for _ in range(c.n(30, 300))]
    scs += [S.brief(c.rng) for _ in range(c.n(40, 400))]
    scs += [S.alike(c.rng) for _ in range(c.n(30, 300))]
    for s in scs:
        s['retune'] = c.rng.random() < 0.15
    c.rng.shuffle(scs)
    c.validate('ScoreTrace', c.drive('score', scs, limit=30), batch=40)
