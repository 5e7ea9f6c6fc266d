"""Scenario generators for C04, C05, C06 (driver stats.py, trace specification StatsTrace)."""
import gen
UNITS = [(1, 1), (1, 4), (1, 2), (1, 8), (2, 1)]


def scenario(rng, focus, nsteps=8, maxcard=4, filters=0, lens=(2, 5, 9, 20, 40)):
    n = rng.randint(1, 5)
    d = gen.dataset(rng, n=n, maxcard=maxcard, lens=lens)
    while all(len(t) < 2 for t in d['traj']):
        d = gen.dataset(rng, n=n, maxcard=maxcard, lens=lens)
    mode = rng.choice(['mixed', 'prior'])
    if mode != 'prior':
        d['edges'] = []
    un, ud = rng.choice(UNITS)
    card = dict(map(tuple, d['vars']))
    steps = []
    for _ in range(rng.randint(2, nsteps)):
        node = rng.choice(d['cols'])
        if mode == 'prior':
            ps = [a for a, b in d['edges'] if b == node]
            form = rng.choice(['prior', 'sub'])
        else:
            pool = [l for l in d['cols'] if l != node]
            ps = rng.sample(pool, rng.randint(0, len(pool)))
            form = rng.choice(['shared', 'shared', 'sub'])
        k = 1
        for p in ps:
            k *= card[p]
        if k > 100:
            continue
        steps.append(dict(a='estimate', form=form, g=rng.randint(1, 2), node=node, parents=ps))
        for _ in range(filters):
            steps.append(dict(a='filter', mask=[rng.random() < 0.6 for _ in range(5)], row=rng.randrange(200),
                              aslist=rng.random() < 0.5))
    return dict(meta=dict(data=[d], un=un, ud=ud, focus=focus), steps=steps)


def exact(rng, focus):
    """Long durations (times alone are judged), states unknown in part."""
    n = rng.randint(1, 4)
    d = gen.dataset(rng, n=n, maxcard=4, lens=(2, 5, 9), maxdt=rng.choice([3, 1000, 2 ** 25]), t0=rng.choice([0, 1, 2 ** 27 + 1]))
    while all(len(t) < 2 for t in d['traj']):
        d = gen.dataset(rng, n=n, maxcard=4, lens=(2, 5, 9), maxdt=3)
    d['edges'] = []
    gen.partial_close(rng, d)
    use = list(d['cols'])
    if n > 1 and rng.random() < 0.5:
        use = rng.sample(use, rng.randint(1, n - 1))
        gen.gaps(rng, d, [c for c in d['cols'] if c not in use])
    un, ud = rng.choice(UNITS)
    steps = []
    for _ in range(5):
        node = rng.choice(use)
        pool = [l for l in use if l != node]
        steps.append(dict(a='estimate', form=rng.choice(['shared', 'sub']), g=rng.randint(1, 2), node=node,
                          parents=rng.sample(pool, rng.randint(0, len(pool)))))
    return dict(meta=dict(data=[d], un=un, ud=ud, focus=focus), steps=steps)


def large(rng, focus, filters=0):
    """Large cardinalities, many configurations."""
    shape = rng.choice([(20, 10, 12), (3, 12, 15, 20), (33, 40), (4, 4, 5, 4, 3, 3, 2), (2, 300), (12, 11, 13), (2,) * 9, (6, 17, 3, 9), (150,), (131, 2)])
    cards = [shape[0]] + list(shape[1:])
    n = len(cards)
    order = list(range(n))
    rng.shuffle(order)
    ls = gen.labels(rng, n) if n < 7 else ['n%d' % i for i in range(n)]
    cs = [cards[j] for j in order]
    node = ls[order.index(0)]
    tr = [gen.trajectory(rng, cs, rng.choice([4, 9, 20]), one=False) for _ in range(2)]
    for t in tr:                    # reach the far corner of the table
        i = rng.randrange(len(t) - 1)
        t[i][1:] = [c - 1 for c in cs]
    d = dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cs)], edges=[])
    ps = [l for l in ls if l != node]
    steps = [dict(a='estimate', form=rng.choice(['shared', 'sub']), g=1, node=node, parents=rng.sample(ps, len(ps)))]
    steps += [dict(a='filter', mask=[rng.random() < 0.6 for _ in range(9)], row=rng.randrange(5000), aslist=rng.random() < 0.5)
              for _ in range(filters)]
    un, ud = rng.choice(UNITS)
    return dict(meta=dict(data=[d], un=un, ud=ud, focus=focus), steps=steps)


def direct(rng, focus):
    """Statistics made up: zero rows, large counts, cardinality 2 to 6."""
    steps = []
    for _ in range(6):
        n, k = rng.randint(2, 6), rng.randint(1, 4)
        top, tt = rng.choice([(60, 300), (60, 300), (3000, 20), (20000, 300), (400, 3), (6, 60 * 10 ** 6)])
        T = [[rng.choice([0, 0, rng.randint(1, tt)]) for _ in range(n)] for _ in range(k)]
        M = []
        for _ in range(k):
            m = [[0 if i == j else rng.choice([0, 0, rng.randint(1, top)]) for j in range(n)] for i in range(n)]
            for i in range(n):
                m[i][i] = sum(m[i])
            M.append(m)
        steps.append(dict(a='direct', form=rng.choice(['cim', 'set']), T=T, M=M, pcards=[k], combs=[[i] for i in range(k)]))
    d = gen.dataset(rng, n=1, lens=(3,))
    un, ud = rng.choice(UNITS)
    return dict(meta=dict(data=[d], un=un, ud=ud, focus=focus), steps=steps)


def long(rng, focus, rows):
    """One or two long trajectories of few variables: counts far beyond those of small data."""
    n = rng.randint(1, 3)
    cards = [2] + [rng.choice([2, 2, 3]) for _ in range(n - 1)]
    ls = gen.labels(rng, n)
    tr = [gen.trajectory(rng, cards, rows, maxdt=2, zero=0.05, t0=0) for _ in range(rng.choice([1, 2]))]
    d = dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cards)], edges=[])
    steps = []
    for _ in range(3):
        node = rng.choice(ls)
        pool = [l for l in ls if l != node]
        steps.append(dict(a='estimate', form=rng.choice(['shared', 'sub']), g=1, node=node, parents=rng.sample(pool, rng.randint(0, len(pool)))))
    un, ud = rng.choice(UNITS)
    return dict(meta=dict(data=[d], un=un, ud=ud, focus=focus), steps=steps)


def bulk(rng, focus, rows):
    """Tens of thousands of records and more."""
    d = gen.bulk(rng, rng.choice([rows // 8, rows, rows]))
    steps = []
    for _ in range(3):
        node = rng.choice(d['cols'])
        pool = [l for l in d['cols'] if l != node]
        steps.append(dict(a='estimate', form=rng.choice(['shared', 'sub']), g=1, node=node, parents=rng.sample(pool, rng.randint(0, len(pool)))))
    un, ud = rng.choice(UNITS)
    return dict(meta=dict(data=[d], un=un, ud=ud, focus=focus), steps=steps)


def combos(rng, focus):
    d = gen.dataset(rng, n=1, lens=(3,))
    steps = []
    for _ in range(6):
        cards = [rng.randint(1 if rng.random() < 0.1 else 2, 5) for _ in range(rng.randint(0, 4))]
        while len(cards) > 3 and max(cards) > 3:
            cards = [min(c, 3) for c in cards]
        if rng.random() < 0.3:
            cards = list(rng.choice([(12, 2), (2, 13), (11, 3, 2), (101, 2), (3, 11), (2, 2, 2, 2, 2), (10, 10), (1, 12, 2)]))
        steps.append(dict(a='combs', cards=cards))
        for _ in range(4):
            steps.append(dict(a='filter', mask=[rng.random() < 0.6 for _ in range(5)], row=rng.randrange(200),
                              aslist=rng.random() < 0.5))
    return dict(meta=dict(data=[d], un=1, ud=1, focus=focus), steps=steps)


def many(rng, focus):
    """Thousands of configurations."""
    d = gen.dataset(rng, n=1, lens=(3,))
    steps = [dict(a='combs', cards=list(rng.choice([(70, 71), (17, 18, 17), (2, 2600), (9, 9, 8, 8), (5, 6, 7, 5, 5)])))]
    steps += [dict(a='filter', mask=[rng.random() < 0.6 for _ in range(5)], row=rng.choice([rng.randrange(10 ** 6), 5100 + rng.randrange(40)]), aslist=rng.random() < 0.5) for _ in range(3)]
    return dict(meta=dict(data=[d], un=1, ud=1, focus=focus), steps=steps)


def model(c):
    c.model('StatsMC', cfg=c.n('StatsMC.cfg', 'StatsMC_thorough.cfg'), args=(), workers=8, expect_actions=('Observe',))
