from checks import score as S
def run(c):
    S.model(c)
    scs = [S.direct(c.rng) for _ in range(c.n(240, 3000))] + [S.direct(c.rng, True) for _ in range(c.n(16, 200))]
    c.rng.shuffle(scs)
    c.validate('ScoreTrace', c.drive('score', scs, limit=30), batch=40)
