"""Scenario generators for C14 and C23 (driver pool.py; trace specifications PoolTrace, SearchTrace, CtpcTrace)."""
import gen
from checks import search

PROCS = [0, 0, 1, 2, 3, 4, 8, -1]


def network(rng, n=None, rows=(3, 20, 60)):
    n = n or rng.choice([1, 2, 3, 3, 4, 4, 5])
    ds = gen.network_data(rng, n, maxrows=rng.choice(rows), maxcard=3)
    return n, ds


def pairs(n):
    return [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if a != b]


def some(rng, es, p=None):
    p = rng.choice([0, 0.15, 0.4, 1]) if p is None else p
    return [e for e in es if rng.random() < p]


def prior(rng, n, ds, none=0.3):
    if n == 1 or rng.random() < none:
        return dict(has=False, edges=[])
    es = some(rng, pairs(n), rng.choice([0.2, 0.5, 1])) or pairs(n)[:1]
    return dict(has=True, edges=[[ds['cols'][a - 1], ds['cols'][b - 1]] for a, b in es])


def lab(ds, es):
    return [[ds['cols'][a - 1], ds['cols'][b - 1]] for a, b in es]


LONG = dict(patience=None, iterations_number=600)


def estimator(rng, n, ds, kind, path, known):
    e = dict(kind=kind, path=path, known=known, noknown=rng.random() < 0.5, al=rng.choice([0.1, 0.3, 0.01]), thr=rng.choice([0, 1, 2, 25]),
             tau=rng.choice([0.1, 1]), alpha=rng.choice([1, 0.5]))
    if kind == 'ctpc':
        e['vf'] = dict(salt=rng.randrange(10 ** 6), p=rng.choice([0.05, 0.2, 0.5]))
    elif kind == 'score':
        e['want'] = some(rng, pairs(n), rng.choice([0, 0.3, 0.6, 1]))
        e['vf'] = dict(want=lab(ds, e['want']))
    return e


def modes(rng, seq=False):
    """Same results whatever the mode, several estimators in turn."""
    n, ds = network(rng)
    paths = [prior(rng, n, ds) for _ in range(rng.choice([1, 1, 2]))]
    ests, groups = [], {}
    for g in range(1, rng.choice([2, 3, 3]) + 1):
        known = some(rng, pairs(n), rng.choice([0, 0, 0.2]))
        rng.shuffle(known)
        e = estimator(rng, n, ds, rng.choice(['ctpc', 'ctpc-real', 'ctpc-real', 'score']), 0, known)
        ests.append(e)
        groups[len(ests)] = g
        if rng.random() < 0.6:                       # another estimator of the same kind: same answers
            e2 = dict(e, path=rng.randrange(len(paths)))
            ests.append(e2)
            groups[len(ests)] = g
    steps = []
    for _ in range(rng.randint(4, 7)):
        k = rng.randint(1, len(ests))
        e = ests[k - 1]
        s = dict(est=k, procs=0 if seq else rng.choice(PROCS), group=groups[k], seed=rng.randrange(10 ** 6), explicit=rng.random() < 0.5)
        if e['kind'] == 'score':
            s['kw'] = dict(LONG, optimizer=rng.choice(['hill', 'tabu']))
            w = {tuple(x) for x in e['want']} | {tuple(x) for x in e['known']}
            s['want'] = sorted(map(list, w))
        steps.append(s)
    return dict(meta=dict(n=n), ds=ds, paths=paths, ests=ests, steps=steps)


def shadowed(rng):
    """Tests that have enough data given some variables and too little given others: one estimator learns again and again."""
    n = rng.choice([4, 4, 5])
    cards = [3, 2, 2] + [rng.choice([4, 4, 3, 2]) for _ in range(n - 3)]
    laws = {}
    for v in range(3):                       # 0 follows 1, and so does 2
        for b in range(2):
            laws[(0, v, b)] = ([4, 0.5][b], [1] * 3)
    for b in range(2):
        laws[(1, b)] = (0.15, [1, 1])
        for v in range(2):
            laws[(2, v, b)] = (rng.choice([0.3, 0.6]) if v != b else 0.1, [1, 1])
    for j in range(3, n):
        for v in range(cards[j]):
            laws[(j, v)] = (rng.choice([0.02, 0.05]), [1] * cards[j])
    dep = {0: [1], 1: [], 2: [1]}
    dep.update({j: [] for j in range(3, n)})
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < 0.8:                   # the fourth is asked about first
        i, j = sorted((order.index(3), order.index(1)))
        order[i], order[j] = 3, 1
    tr = gen.process(rng, cards, rng.choice([200, 400, 600]), dep, laws, zero=0, scale=30, most=10 ** 6)
    ls = gen.labels(rng, n, 0.2)
    ds = dict(cols=ls, traj=[[[r[0]] + [r[1 + j] for j in order] for r in tr]], vars=[[l, cards[j]] for l, j in zip(ls, order)], edges=[])
    e = dict(kind='ctpc-real', path=0, known=[], noknown=True, al=rng.choice([0.1, 0.1, 0.05, 0.01]), thr=rng.choice([0.5, 1, 1, 2, 4]), tau=0.1, alpha=1)
    steps = [dict(est=k, procs=p, group=1, seed=1, explicit=False) for k, p in ((1, 0), (1, 0), (2, rng.choice([0, 2])), (1, rng.choice([0, 2])))]
    return dict(meta=dict(n=n), ds=ds, paths=[dict(has=False, edges=[])], ests=[e, dict(e)], steps=steps)


def asked(rng):
    """Every node is treated with the parameters that were asked for."""
    n = rng.choice([2, 3, 3, 4, 5])
    ds = search.tiny(n)
    table = {c: search.table(rng, n - 1) for c in ds['cols']}
    known = some(rng, pairs(n), rng.choice([0, 0, 0.2]))
    e = dict(kind='score', path=0, known=known, noknown=True, tau=0.1, alpha=1, al=0, thr=0, vf=dict(table=table))
    steps = []
    for _ in range(rng.choice([1, 2])):
        kind = rng.choice(['hill', 'tabu', 'tabu'])
        p = search.params(rng, kind, n - 1, [])
        names = dict(maxp='max_parents', iters='iterations_number', patience='patience')
        if kind == 'tabu':
            names.update(tlen='tabu_length', tdur='tabu_rules_duration')
        kw = {v: (None if p[k] < 0 else p[k]) for k, v in names.items()}
        kw['optimizer'] = kind
        for k, d in dict(max_parents=None, patience=None, tabu_length=None, tabu_rules_duration=None, optimizer='tabu').items():
            if k in kw and kw[k] == d and rng.random() < 0.6:
                del kw[k]                                       # the default
        steps.append(dict(est=1, procs=rng.choice([0, 2, 3, 8, -1]), seed=rng.randrange(10 ** 6), kw=kw, p=p))
    return dict(meta=dict(p=dict(steps[0]['p'], cands=[], prior=[]), score=[0]), ds=ds, paths=[prior(rng, n, ds)], ests=[e], steps=steps,
                emit='score')


def tests(rng):
    n = rng.choice([1, 2, 3, 4, 5])
    ds = search.tiny(n)
    known = some(rng, pairs(n), rng.choice([0, 0, 0.2]))
    e = estimator(rng, n, ds, 'ctpc', 0, known)
    steps = [dict(est=1, procs=rng.choice([2, 3, 8, -1]), seed=1) for _ in range(rng.choice([1, 2]))]
    return dict(meta=dict(n=n, known=known), ds=ds, paths=[prior(rng, n, ds)], ests=[e], steps=steps, emit='ctpc')


def known(rng):
    """Known edges are kept, exactly those are protected, the prior structure has no influence."""
    n, ds = network(rng, rng.choice([2, 3, 3, 4, 4, 5]), rows=(3, 20, 60))
    kn = some(rng, pairs(n), rng.choice([0, 0.15, 0.4, 0.8]))
    if rng.random() < 0.3:                                      # some listed more than once
        kn += [list(e) for e in rng.sample(kn, rng.randint(0, len(kn)))]
    rng.shuffle(kn)
    paths = [prior(rng, n, ds, 1), prior(rng, n, ds, 0), prior(rng, n, ds, 0)]
    kind = rng.choice(['ctpc', 'ctpc-real', 'ctpc-real', 'score', 'score-real', 'score-real'])
    base = estimator(rng, n, ds, kind, 0, kn)
    base['noknown'] = rng.random() < 0.5
    base['aslists'] = rng.random() < 0.3
    goal = None
    if kind == 'ctpc' and rng.random() < 0.7:                   # independent unless in the list
        goal = rng.choice([[], some(rng, pairs(n), 0.3)])
        base['vf'] = dict(indep=lab(ds, goal))
    ests = [dict(base, path=k) for k in range(3)]
    steps = []
    for run in range(rng.choice([1, 2])):
        kw, seed, par = {}, rng.randrange(10 ** 6), rng.random() < 0.3
        w = None
        if kind.startswith('score'):
            opt = rng.choice(['hill', 'tabu'])
            kw = dict(optimizer=opt, max_parents=rng.choice([None, 0, 1, 2]), iterations_number=rng.choice([0, 1, 5, 20, 40]),
                      patience=rng.choice([None, 0, 1, 5]))
            if opt == 'tabu':
                kw.update(tabu_length=rng.choice([None, 1, 2]), tabu_rules_duration=rng.choice([None, 1, 3]))
            if kind == 'score' and rng.random() < 0.6:
                kw.update(LONG, max_parents=None)
                w = {tuple(x) for x in base['want']} | {tuple(x) for x in kn}
        elif goal is not None:
            w = {tuple(x) for x in goal} | {tuple(x) for x in kn}
        order = [1, 2, 3]
        rng.shuffle(order)
        for k in order:
            s = dict(est=k, procs=rng.choice([2, 3]) if par else 0, seed=seed, kw=kw,
                     group=0 if par and kind.startswith('score') and w is None else 1 + run)
            if w is not None:
                s['want'] = sorted(map(list, w))
            steps.append(s)
    return dict(meta=dict(n=n), ds=ds, paths=paths, ests=ests, steps=steps)
