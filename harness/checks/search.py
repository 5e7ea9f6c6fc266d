"""Scenario generators for C09 and C10 (driver search.py, trace specification SearchTrace)."""
import gen


def params(rng, kind, k, prior, long=False):
    cands = [i for i in range(1, k + 1) if i not in prior]
    p = dict(kind=kind, cands=cands, prior=prior, maxp=rng.choice([-1, -1, 0, 1, 2, 3]),
             iters=rng.choice([0, 1, 2, 5, 10, 20, 40]), patience=rng.choice([-1, -1, 0, 1, 2, 5, 10]), tlen=-1, tdur=-1)
    if kind == 'tabu':
        p['tlen'] = rng.choice([-1, -1, 0, 1, 2, 3, 7])
        p['tdur'] = rng.choice([-1, -1, 1, 2, 3, 5, 8])
    if long:
        if kind == 'tabu':          # lists that leave a choice
            p['tlen'], p['tdur'] = rng.choice([-1, 0, 1, 2, 3]), rng.choice([-1, 1, 1, 2, 3])
        p['maxp'] = rng.choice([-1, 1, 2, 2, 3])
        p['patience'], p['iters'] = -1, rng.choice([60, 60, 150]) * max(1, len(cands)) + rng.randint(0, 5)
    return p


def table(rng, k):
    m = 2 ** k
    if rng.random() < 0.15:                                       # the best parent alone matters: it makes others superfluous
        w = rng.sample(range(1, k + 1), k)
        return [max([w[j] for j in range(k) if i >> j & 1], default=0) for i in range(m)]
    u = rng.random()
    if u < 0.4:
        return [rng.randint(0, 3) for _ in range(m)]              # many ties
    if u < 0.7:
        return [rng.randint(-50, 50) for _ in range(m)]
    if u < 0.85:
        goal = rng.randrange(m)
        return [-bin(i ^ goal).count('1') for i in range(m)]      # one summit
    if u < 0.93:                                                  # helpful up to a number of parents, then indifferent
        cap = rng.randint(1, 3)
        return [min(bin(i).count('1'), cap) for i in range(m)]
    w = [rng.choice([-2, 0, 0, 1, 3]) for _ in range(k)]          # parents of different worth, some of none
    return [sum(w[j] for j in range(k) if i >> j & 1) for i in range(m)]


# how the values of the table become scores: small improvements of large scores, tiny scores, large ones
LAWS = [(0.0, 1.0), (0.0, 1.0), (-1e6, 0.5), (-1e9, 0.001), (0.0, 1e-9), (-3.0, 1e-9), (0.0, 1e6), (1e5, 1.0)]


def tiny(n):
    cols = ['N%d' % i for i in range(n)]
    return dict(cols=cols, traj=[[[0] + [0] * n, [1] + [1] + [0] * (n - 1), [3] + [0] * n]], vars=[[c, 2] for c in cols], edges=[])


def scripted(rng, kind, maxn=5, long=False):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 5][:2 * maxn + 1]) if maxn < 6 else rng.randint(2, maxn)
    ds = tiny(n)
    k = n - 1
    prior = sorted(rng.sample(range(1, k + 1), rng.choice([0, 0, 0, 0, 0, 1, min(2, k), max(0, k - 1), k if rng.random() < 0.4 else 0]) if k else 0)) if k else []
    p = params(rng, kind, k, prior, long)
    node = rng.randrange(n)
    other = [e for e in gen.edges(rng, ds['cols'], 0.2) if e[1] != ds['cols'][node]]
    return dict(meta=dict(p=p, score=table(rng, k)), mode='scripted', law=rng.choice(LAWS), ds=ds, node=node, seed=rng.randrange(10 ** 6),
                form=rng.choice(['optimizer', 'estimator', 'estimator']), runs=rng.choice([1, 1, 2]), otherknown=other)


def crowded(rng, kind):
    """More equally good parents than the limit admits: most moves are replacements that bring nothing."""
    n = rng.choice([5, 6])
    k, m = n - 1, rng.choice([2, 2, 3])
    p = dict(kind=kind, cands=list(range(1, k + 1)), prior=[], maxp=m, iters=90 * m * k // (k - m), patience=-1, tlen=-1, tdur=-1)
    if kind == 'tabu':
        p['tlen'], p['tdur'] = rng.choice([0, 1, 2]), rng.choice([-1, 1, 2])
    return dict(meta=dict(p=p, score=[min(bin(i).count('1'), m) for i in range(2 ** k)]), mode='scripted', ds=tiny(n), node=rng.randrange(n),
                seed=rng.randrange(10 ** 6), form=rng.choice(['optimizer', 'estimator']), runs=1, otherknown=[])


def many(rng, kind, k):
    """Up to a dozen candidates; a short run proposes each of them at most a few times, a long one all of them."""
    p = dict(kind=kind, cands=list(range(1, k + 1)), prior=[], maxp=rng.choice([-1, -1, 1, 3, 6]), iters=rng.choice([8, 20, 45, 200, 60 * k + 7, 60 * k + 7]),
             patience=rng.choice([-1, -1, 12]), tlen=-1, tdur=-1)
    if kind == 'tabu':
        p['tlen'], p['tdur'] = rng.choice([-1, 4, 7, 8, k - 1, k]), rng.choice([-1, 5, 20, 60])
    u = rng.random()
    goal = rng.randrange(2 ** k)
    score = [-bin(i ^ goal).count('1') if u < 0.4 else -bin(i).count('1') if u < 0.7 else rng.randint(0, 40) for i in range(2 ** k)]
    return dict(meta=dict(p=p, score=score), mode='scripted', ds=tiny(k + 1), node=rng.randrange(k + 1), seed=rng.randrange(10 ** 6),
                form=rng.choice(['optimizer', 'estimator']), runs=rng.choice([1, 2]), otherknown=[])


def real(rng, kind):
    n = rng.randint(2, 4)
    ds = gen.dataset(rng, n=n, ntraj=rng.randint(1, 2), lens=(20, 40, 60), maxcard=3)
    ds['edges'] = []
    k = n - 1
    prior = sorted(rng.sample(range(1, k + 1), rng.choice([0, 0, 1]) if k > 1 else 0))
    p = params(rng, kind, k, prior, rng.random() < 0.6)
    return dict(meta=dict(p=p, score=[]), mode='real', ds=ds, node=rng.randrange(n), seed=rng.randrange(10 ** 6),
                alpha=rng.choice([1, 0.5, 2]), tau=rng.choice([0.1, 1]), form=rng.choice(['optimizer', 'estimator']),
                runs=rng.choice([1, 2]))


def run(c, kind):
    c.model('SearchMC', cfg=c.n('SearchMC.cfg', 'SearchMC_thorough.cfg'), workers=8, expect_actions=('Start', 'Iterate', 'Return'))
    scs = [scripted(c.rng, kind) for _ in range(c.n(700, 8000))]
    scs += [scripted(c.rng, kind, 6, long=True) for _ in range(c.n(40, 400))]
    scs += [crowded(c.rng, kind) for _ in range(c.n(10, 80))]
    scs += [real(c.rng, kind) for _ in range(c.n(60, 600))]
    scs += [many(c.rng, kind, c.rng.choice([7, 8, 9, 9, 10])) for _ in range(c.n(32, 240))]
    tr = c.drive('search', scs, limit=60)
    seam = sum(1 for t in tr if t and any(e['a'] == 'eval' for e in t['ev']))
    c.extra['traces_with_logged_evaluations'] = seam
    c.validate('SearchTrace', tr, batch=140)
    if seam == 0:
        c.assumptions.append('the scoring seam was never called: only runs seen from outside were judged')
