"""Scenario generators for C07 and C08 (driver score.py, trace specification ScoreTrace)."""
import math
import gen

ALPHA = [(1, 1), (1, 10), (1, 2), (2, 1), (3, 1), (7, 10), (5, 2), (20, 1), (1, 20), (60, 1), (150, 1)]
TAU = [(1, 10), (1, 1), (5, 2), (1, 4), (10, 1), (1, 1000), (1000, 1), (1, 20000), (1, 10 ** 6), (50000, 1)]


def fix(x):
    n = round(x * 10 ** 9)
    return [n // 10 ** 6, n % 10 ** 6]


def tables(hyper, unit, maxcard, mmax, tmax):
    out = []
    for (an, ad), (tn, td) in hyper:
        a, t = an / ad, tn / td
        out.append(dict(an=an, ad=ad, A=[fix(math.lgamma(a + m)) for m in range(mmax + 3)],
                        X=[[[0, 0]]] + [[fix(math.lgamma(a / (c - 1) + m)) for m in range(mmax + 2)] for c in range(2, maxcard + 1)],
                        T=[fix(math.log(t + k * unit)) for k in range(tmax + 1)]))
    return out


def hypers(rng, k):
    hs = [((1, 1), (1, 10))] if rng.random() < 0.3 else []
    while len(hs) < k:
        hs.append((rng.choice(ALPHA), rng.choice(TAU)))
    return hs[:k]


def direct(rng, big=False):
    unit = rng.choice([1.0, 1.0, 0.25, 0.5, 2.0 ** -12, 512.0, 4096.0])
    hs = hypers(rng, 2)
    if big:
        hs = [((1, 1), (1, 10)), (rng.choice([(1, 2), (2, 1), (20, 1)]), rng.choice(TAU))]
    steps, maxc, maxm, maxt = [], 2, 0, 0
    for _ in range(5):
        n, k = rng.randint(2, 6), rng.randint(1, 5)
        top, tt = rng.choice([(12, 60), (12, 60), (1, 400), (60, 300)] if unit <= 1 else [(12, 60), (12, 60), (1, 400)])
        if rng.random() < 0.15:
            n, k, top = rng.randint(7, 14), rng.randint(1, 2), 12
        if big:
            n, k, top, tt = rng.randint(2, 3), rng.randint(1, 2), rng.choice([150, 700] if unit <= 1 else [150]), rng.choice([20, 1000])
        T = [[rng.choice([0, rng.randint(1, tt)]) for _ in range(n)] for _ in range(k)]
        M = []
        for _ in range(k):
            m = [[0 if i == j else rng.choice([0, 0, rng.randint(1, top)]) for j in range(n)] for i in range(n)]
            for i in range(n):
                m[i][i] = sum(m[i])
                maxm = max(maxm, m[i][i])
            M.append(m)
        maxc, maxt = max(maxc, n), max([maxt] + [t for r in T for t in r])
        steps.append(dict(a='direct', h=rng.randint(1, 2), T=T, M=M))
    d = dict(cols=['X'], traj=[[[0, 0], [1, 1]]], vars=[['X', 2]], edges=[])
    return dict(meta=dict(data=[d], hyper=tables(hs, unit, maxc, maxm, maxt), graphs=1), unit=unit,
                hyper=[(a / b, c / e) for (a, b), (c, e) in hs], steps=steps)


def estimator(rng, nsteps=14, lens=(3, 8, 15, 25), ns=(2, 3, 4)):
    d = gen.dataset(rng, n=rng.choice(ns), ntraj=rng.randint(1, 3), lens=lens, maxcard=4, maxdt=3)
    d['edges'] = []
    n = len(d['cols'])
    unit = rng.choice([1.0, 0.25, 0.5])
    hs = hypers(rng, 2)
    tmax = sum(t[-1][0] - t[0][0] for t in d['traj'])
    mmax = sum(len(t) for t in d['traj'])
    variants = []
    for i in range(rng.randint(1, 3)):
        perm = list(range(len(d['traj'])))
        order = list(range(n))
        names = list(d['cols'])
        if i:
            rng.shuffle(perm)
            if rng.random() < 0.6:
                rng.shuffle(order)
            if rng.random() < 0.6:
                names = gen.labels(rng, n, 0.3)
        variants.append(dict(perm=perm, order=order, names=names))
    graphs = [rng.randrange(len(variants)) for _ in range(rng.randint(1, 4))]
    pool = [[a, b] for a in d['cols'] for b in d['cols'] if a != b]
    cur = {k: [] for k in range(1, len(graphs) + 1)}
    steps = []
    for _ in range(nsteps):
        g = rng.randint(1, len(graphs))
        u = rng.random()
        if u < 0.35:
            es = rng.sample(pool, rng.randint(1, len(pool)))
            steps.append(dict(a='edit', g=g, op='add', edges=es))
            cur[g] += [e for e in es if e not in cur[g]]
        elif u < 0.5 and cur[g]:
            es = rng.sample(cur[g], rng.randint(1, len(cur[g])))
            steps.append(dict(a='edit', g=g, op='del', edges=es))
            cur[g] = [e for e in cur[g] if e not in es]
        else:
            steps.append(dict(a='score', g=g, h=rng.randint(1, 2), node=rng.choice(d['cols'])))
    steps.append(dict(a='score', g=g, h=1, node=rng.choice(d['cols'])))
    return dict(meta=dict(data=[d], hyper=tables(hs, unit, 4, mmax, tmax), graphs=len(graphs)), unit=unit,
                hyper=[(a / b, c / e) for (a, b), (c, e) in hs], variants=variants, graphs=graphs, steps=steps)


def alike(rng):
    """Parents under which a node spends the same time in every state of theirs, but does not do the same there."""
    k, q, n = rng.choice([2, 2, 3]), rng.choice([2, 2, 3]), rng.choice([2, 3, 4])
    rows = rng.choice([12, 16, 24])
    cols = gen.labels(rng, n + 1)
    xs = [rng.randrange(k) for _ in range(rows)]
    ps = [rng.randrange(q) for _ in range(rows - 1)]
    others = []
    for _ in range(n):
        o = list(ps)
        for x in range(k):                     # the node's stays in x are dealt out anew
            at = [i for i in range(rows - 1) if xs[i] == x]
            vals = [ps[i] for i in at]
            rng.shuffle(vals)
            for i, v in zip(at, vals):
                o[i] = v
        others.append(o + [rng.randrange(q)])
    dt = rng.choice([1, 2])
    d = dict(cols=cols, traj=[[[dt * i, xs[i]] + [o[i] for o in others] for i in range(rows)]],
             vars=[[cols[0], k]] + [[c, q] for c in cols[1:]], edges=[])
    unit = rng.choice([1.0, 0.25, 0.5])
    hs = hypers(rng, 2)
    steps, cur = [], []
    for _ in range(rng.choice([6, 10])):
        now = [[p, cols[0]] for p in rng.sample(cols[1:], rng.choice([1, 1, 1, min(2, n)]))]
        drop, add = [e for e in cur if e not in now], [e for e in now if e not in cur]
        steps += [dict(a='edit', g=1, op=op, edges=es) for op, es in (('del', drop), ('add', add)) if es]
        cur = now
        steps.append(dict(a='score', g=1, h=1 if rng.random() < 0.8 else 2, node=cols[0]))
    return dict(meta=dict(data=[d], hyper=tables(hs, unit, 4, rows, dt * rows), graphs=1), unit=unit,
                hyper=[(a / b, c / e) for (a, b), (c, e) in hs],
                variants=[dict(perm=[0], order=list(range(n + 1)), names=list(cols))], graphs=[0], steps=steps)


def brief(rng):
    """Estimators that come and go, with other data of the same variables in between."""
    s = estimator(rng, 10)
    cards = [v[1] for v in s['meta']['data'][0]['vars']]
    s['decoys'] = [[gen.trajectory(rng, cards, rng.choice([5, 9, 15]), maxdt=3) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 2]))]
    return s


def sweep(rng):
    """Many variables, one estimator: every single parent and many pairs of a node are scored, in any order and more than once."""
    n = rng.randint(6, 9)
    cols = ['n%d' % i for i in rng.sample(range(30), n)]
    if rng.random() < 0.4:
        cols = gen.labels(rng, 6, 1)
        n = len(cols)
    cards = [rng.choice([2, 2, 3]) for _ in cols]
    d = dict(cols=cols, traj=[gen.trajectory(rng, cards, rng.choice([12, 20, 30]), maxdt=3) for _ in range(rng.choice([1, 2]))],
             vars=[[l, k] for l, k in zip(cols, cards)], edges=[])
    unit = rng.choice([1.0, 0.25, 0.5])
    hs = hypers(rng, 2)
    tmax = sum(t[-1][0] - t[0][0] for t in d['traj'])
    mmax = sum(len(t) for t in d['traj'])
    graphs = [0, 0]
    steps, cur = [], {1: set(), 2: set()}
    for node in rng.sample(cols, 2):
        others = [l for l in cols if l != node]
        sets = [{p} for p in others] + [set(rng.sample(others, 2)) for _ in range(5)] + [set(rng.sample(others, 3)), set()]
        rng.shuffle(sets)
        for ps in sets + sets[:2]:
            g = rng.randint(1, 2)
            now = {a for a, b in cur[g] if b == node}
            drop, add = [[p, node] for p in sorted(now - ps)], [[p, node] for p in sorted(ps - now)]
            for op, es in (('del', drop), ('add', add)):
                if es:
                    steps.append(dict(a='edit', g=g, op=op, edges=es))
            cur[g] = {(a, b) for a, b in cur[g] if b != node} | {(p, node) for p in ps}
            steps.append(dict(a='score', g=g, h=1 if rng.random() < 0.9 else 2, node=node))
    return dict(meta=dict(data=[d], hyper=tables(hs, unit, 3, mmax, tmax), graphs=2), unit=unit,
                hyper=[(a / b, c / e) for (a, b), (c, e) in hs],
                variants=[dict(perm=list(range(len(d['traj']))), order=list(range(n)), names=list(cols))], graphs=graphs, steps=steps)


def model(c):
    c.model('FamScoreMC', cfg=c.n('FamScoreMC.cfg', 'FamScoreMC_thorough.cfg'), expect_actions=('Move', 'Stay'))
