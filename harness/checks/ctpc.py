"""Scenario generators for C11, C12, C13 (driver ctpc.py, trace specifications CtpcTrace and IndepTrace)."""
import json, os
import gen
from checks.search import tiny

ALPHAS = [0.1, 0.05, 0.01, 0.3, 0.5, 0.8, 0.000001]
MORE = [0.2, 0.4, 0.6, 0.7, 0.9, 0.95, 0.98]           # chi-square only


def tables(c, top):
    """Quantiles for IndepTest.tla, from scipy."""
    import math
    import numpy as np
    from scipy.stats import f as F, chi2
    cap = 2000000000

    def sc(a, k):
        a = np.where(np.isnan(a), 0, np.minimum(np.floor(a * k), cap))
        return a.astype(int)
    r = np.arange(1, top + 1)
    out = dict(F=[], chi=[])
    for al in ALPHAS:
        lo = sc(F.ppf(al / 2, r[:, None], r[None, :]), 1e5)
        hi = sc(F.ppf(1 - al / 2, r[:, None], r[None, :]), 1e5)
        out['F'].append(np.stack([lo, hi], axis=2).tolist())
    for al in ALPHAS + MORE:
        out['chi'].append(sc(chi2.ppf(1 - al, np.arange(1, 8)), 1e4).tolist())
    p = os.path.join(c.work, 'tables.json')
    with open(p, 'w') as f:
        json.dump(out, f)
    return dict(TABLES=p)


def scripted(rng, maxn=5, minn=1, oracles=None):
    n = rng.randint(minn, maxn)
    num = range(1, n + 1)
    pairs = [[a, b] for a in num for b in num if a != b]
    known = [e for e in pairs if rng.random() < 0.15] if rng.random() < 0.6 else []
    return dict(mode='scripted', meta=dict(n=n, known=known), ds=tiny(n), seed=rng.randrange(10 ** 6),
                oracle=rng.choice(oracles or ['random', 'random', 'graph', 'size', 'pick'] if maxn < 6 or oracles else ['pick', 'pick', 'graph', 'size']), p=rng.choice([0, 0.05, 0.2, 0.5, 1]),
                size=rng.randint(0, 3) if maxn < 6 else rng.randint(0, n - 2), low=rng.choice([0, 0, 3, 5, 9] if maxn < 8 else [0, 5, 9, 9]), truth=[e for e in pairs if rng.random() < 0.3], runs=rng.choice([1, 1, 2]))


def wide(rng):
    """Many variables; all but a few edges are known, so that one node has many sets to be tested with."""
    n, x = rng.choice([9, 10, 10, 11]), 0
    x = rng.randint(1, n)
    cands = rng.sample([i for i in range(1, n + 1) if i != x], rng.choice([1, 2, 3]))
    known = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if a != b and (b != x or a not in cands)]
    return dict(mode='scripted', meta=dict(n=n, known=known), ds=tiny(n), seed=rng.randrange(10 ** 6), oracle=rng.choice(['pick', 'pick', 'pick', 'size']), p=0,
                size=rng.randint(0, n - 2), low=rng.choice([0, 2, 3, 4, n - 3]), truth=[[a, x] for a in cands if rng.random() < 0.3], runs=1)


def destinations(rng):
    """How often a variable changes does not depend on another one, but where it goes may; some transitions are rare or never seen.
    A state left exactly once in some configuration settles every test, so there is none."""
    for _ in range(400):
        n = rng.choice([2, 2, 3])
        c = rng.choice([3, 4, 4, 5])
        cards = [c] + [2] * (n - 1)
        ws = rng.choice([[0, 0, 0.1, 1, 3], [0.1, 0.1, 5], [1], [0.3, 1]])
        laws = {(0, v, w): (1, [rng.choice(ws) if a != v else 0 for a in range(c)]) for v in range(c) for w in range(2)}
        for k, (r, w) in laws.items():
            if not any(w):
                w[(k[1] + 1 + k[2]) % c] = 1
        laws.update({(j, v): (0.3, [1, 1]) for j in range(1, n) for v in range(2)})
        dep = {j: [1] if j == 0 else [] for j in range(n)}
        tr = gen.process(rng, cards, rng.choice([8, 12, 16, 20, 30, 60]), dep, laws)
        m = {}
        for a, b in zip(tr, tr[1:]):
            if a[1] != b[1] and b[1] >= 0:
                k = (a[1],) + tuple(a[2:])
                for q in {(k[0], k[1]), k}:
                    m[q] = m.get(q, 0) + 1
        if 1 not in m.values():
            break
    order = list(range(n))
    rng.shuffle(order)
    ls = gen.labels(rng, n, 0.2)
    tr = [[[r[0]] + [r[1 + j] for j in order] for r in tr]]
    d = dict(cols=ls, traj=tr, vars=[[l, cards[j]] for l, j in zip(ls, order)], edges=[])
    x, cand = order.index(0) + 1, order.index(1) + 1
    ests = [dict(fi=7, ci=ci, known=[], thr=0) for ci in (1, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14)]
    steps = []
    for k in range(1, len(ests) + 1):
        S = [i for i in range(1, n + 1) if i not in (x, cand) and rng.random() < 0.4]
        steps.append(dict(a='test', est=k, fresh=True, x=x, cand=cand, set=S))
    un, ud = rng.choice([(1, 1), (1, 4), (2, 1)])
    return dict(mode='real', meta=dict(data=[d], un=un, ud=ud, ests=ests), seed=rng.randrange(10 ** 6), alphas=ALPHAS + MORE, steps=steps)


def scarce(rng):
    """Independent variables of many states, thresholds on either side of what the data give."""
    n = rng.choice([3, 3, 4])
    cards = [rng.choice([3, 3, 4]), rng.choice([2, 2, 3, 5])] + ([rng.choice([2, 3, 5, 6, 7])] if n == 3 else [rng.choice([2, 3, 5]), 2])
    laws = {(j, v): (rng.choice([2, 4]) if j == 0 else rng.choice([0.5, 1]), [1] * cards[j]) for j in range(n) for v in range(cards[j])}
    order = list(range(n))
    rng.shuffle(order)
    tr = gen.process(rng, cards, rng.choice([200, 600, 900]), {j: [] for j in range(n)}, laws, close=0, zero=0, scale=6, most=10 ** 4)
    S = sorted(rng.sample(range(2, n), rng.randint(1, n - 2)))
    counts, moves, df = {}, {}, (cards[0] - 1) ** 2 * cards[1]
    for j in S:
        df *= cards[j]
    for a, b in zip(tr, tr[1:]):                # moves of the first, by the values of the set
        k = tuple(a[1 + j] for j in S)
        counts[k] = counts.get(k, 0) + (a[1] != b[1])
        moves[k, a[1]] = moves.get((k, a[1]), 0) + (a[1] != b[1])
    if max(moves.values()) > 108:               # beyond the tables of quantiles
        return scarce(rng)
    exact = 4 * min(counts.values()) // df
    ls = gen.labels(rng, n)
    d = dict(cols=ls, traj=[[[r[0]] + [r[1 + j] for j in order] for r in tr]], vars=[[l, cards[j]] for l, j in zip(ls, order)], edges=[])
    ests, steps = [], []
    for k in range(3):
        ests.append(dict(fi=rng.choice([7, 7, 3]), ci=rng.choice([7, 7, 3]), known=[], thr=max(0, exact + rng.choice([0, 1, 1, 2]))))
        steps.append(dict(a='test', est=k + 1, fresh=True, x=order.index(0) + 1, cand=order.index(1) + 1, set=[order.index(j) + 1 for j in S]))
    return dict(mode='real', meta=dict(data=[d], un=1, ud=1, ests=ests), seed=rng.randrange(10 ** 6), alphas=ALPHAS + MORE, steps=steps)


def real(rng, what, maxn=4, rows=90):
    n = rng.choice([2, 2, 3, 3, 3, 4][:maxn + 2] if maxn < 4 else [2, 3, 3, 4])
    wide = what == 'tests' and rng.random() < 0.4     # variables with many states
    d = gen.network_data(rng, n, maxrows=rng.choice([20, 50, rows]) if not wide else rng.choice([60, 150]), most=3 if wide else 0)
    num = range(1, n + 1)
    ests = []
    for _ in range(rng.randint(1, 2) if what != 'tests' else 3):
        known = [[a, b] for a in num for b in num if a != b and rng.random() < 0.15] if rng.random() < 0.3 else []
        ests.append(dict(fi=rng.randint(1, len(ALPHAS)), ci=rng.randint(1, len(ALPHAS)), known=known,
                         thr=4 * rng.choice([0, 0, 1, 1, 2, 4, 25]) if rng.random() < 0.7 else rng.randint(1, 12)))
        if wide:
            ests[-1]['thr'] = rng.randint(1, 16)
    steps = []

    def test(k, fresh):
        x = rng.choice(num)
        cand = rng.choice([i for i in num if i != x])
        rest = [i for i in num if i not in (x, cand)]
        S = rng.sample(rest, rng.randint(0, len(rest)))
        return dict(a='test', est=k, fresh=fresh, x=x, cand=cand, set=S)
    if what == 'learn':
        for k in range(1, len(ests) + 1):
            for _ in range(rng.choice([1, 1, 2])):
                steps.append(dict(a='learn', est=k))
    elif what == 'tests':
        for k in range(1, len(ests) + 1):
            steps += [test(k, True) for _ in range(4)]
            if rng.random() < 0.3:
                steps.append(dict(a='learn', est=k, fresh=True))
    else:                          # history: shared estimators
        for _ in range(rng.randint(4, 14)):
            k = rng.randint(1, len(ests))
            steps.append(dict(a='learn', est=k) if rng.random() < 0.15 else test(k, False))
    un, ud = rng.choice([(1, 1), (1, 4), (1, 2), (2, 1)])
    return dict(mode='real', meta=dict(data=[d], un=un, ud=ud, ests=ests), seed=rng.randrange(10 ** 6), alphas=ALPHAS + MORE, steps=steps)
