"""Scenario generators for C16 and C17 (driver netgen.py, trace specification NetGenTrace)."""
import gen


def net(rng, n=None, maxcard=4):
    n = n or rng.choice([1, 2, 3, 3, 4, 5, 6])
    ls = gen.labels(rng, n) if n < 7 else ['n%d' % i for i in rng.sample(range(40), n)]
    return ls, [rng.randint(2, maxcard) for _ in ls]


def density(rng, n, fixed):
    if not fixed:
        den = rng.choice([1, 2, 4, 5, 10])
        return rng.randint(0, den), den
    N = max(1, n * (n - 1))
    if rng.random() < 0.7:
        return rng.randint(0, N), N                        # a whole number of edges
    den = rng.choice([2, 3, 4, 5, 7, 10])
    return rng.randint(0, den), den


def graphs(rng, n=None):
    ls, cards = net(rng, n)
    steps = []
    for _ in range(rng.randint(2, 8)):
        if steps and rng.random() < 0.35:
            steps.append(dict(a='frames'))
            continue
        fixed = rng.random() < 0.6
        num, den = density(rng, len(ls), fixed)
        steps.append(dict(a='graph', num=num, den=den, fixed=fixed, asint=rng.random() < 0.5))
        if not fixed or (num * len(ls) * (len(ls) - 1)) % den == 0:
            continue
    out, has = [], False
    for s in steps:
        if s['a'] == 'graph' and not (s['fixed'] and (s['num'] * len(ls) * (len(ls) - 1)) % s['den']):
            has = True
        if s['a'] != 'frames' or has:
            out.append(s)
    return dict(meta=dict(n=len(ls), cards=cards), labels=ls, seed=rng.randrange(10 ** 6), steps=out)


def statistics(rng, runs):
    n = rng.choice([2, 3, 3, 4, 5])
    ls, cards = net(rng, n, 2)
    fixed = rng.random() < 0.5
    N = n * (n - 1)
    num, den = (rng.randint(1, N), N) if fixed else rng.choice([(1, 2), (1, 4), (3, 10), (4, 5), (1, 10)])
    return dict(meta=dict(n=n, cards=cards), labels=ls, seed=rng.randrange(10 ** 6),
                steps=[dict(a='stats', num=num, den=den, fixed=fixed, runs=runs)])


def totals(rng, runs):
    """Many variables, any density: the number of edges in all."""
    n = rng.choice([12, 20, 30])
    ls, cards = net(rng, n, 2)
    num, den = rng.choice([(1, 250), (3, 1000), (15, 1000), (25, 1000), (1, 8), (333, 1000), (625, 1000), (996, 1000), (2, 3), (1, 400)])
    return dict(meta=dict(n=n, cards=cards), labels=ls, seed=rng.randrange(10 ** 6),
                steps=[dict(a='total', num=num, den=den, fixed=False, runs=runs)])


def params(rng):
    ls, cards = net(rng, rng.choice([1, 2, 3, 3, 4, 4, 5]))
    if len(ls) < 3 and rng.random() < 0.3:
        cards[rng.randrange(len(ls))] = rng.choice([9, 13, 20, 33])
    steps = []
    if rng.random() < 0.4:
        steps.append(dict(a='early', lo=1, hi=3))

    def g():
        p = rng.choice([0, 1, 2, 3, 5]) if len(ls) < 5 else rng.choice([0, 1, 2])
        return dict(a='graph', num=p, den=5, fixed=False)

    def c():
        lo = rng.choice([1, 2000, 10000, 10000, 15000, 50000])
        return dict(a='cims', lo=lo, hi=lo + rng.choice([0, 10, 10000, 20000, 90000]))
    steps += [g(), c()]
    for _ in range(rng.randint(0, 3)):
        steps += rng.choice([[c()], [g(), c()], [dict(a='frames')]])
    return dict(meta=dict(n=len(ls), cards=cards), labels=ls, seed=rng.randrange(10 ** 6), steps=steps)


def model(c):
    c.model('NetGenMC', cfg=c.n('NetGenMC.cfg', 'NetGenMC_thorough.cfg'), workers=8,
            expect_actions=('Free', 'Fixed', 'Refuse', 'Params', 'TooEarly'))
