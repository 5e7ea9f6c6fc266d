"""Generators of inputs shared by the checks (all randomness from the rng passed in)."""
LABELS = [['X', 'Y', 'Z', 'U', 'V', 'W'], ['A', 'AS', 'ASS', 'S', 'SS', 'AA'], ['b', 'a', 'c', 'Ab', 'aB', 'B'],
          ['v10', 'v9', 'v1', 'v2', 'v11', 'v0'], ['T', 'time', 'Name', 'From', 'To', 'Value'],
          ['0', '1', '2', '10', '3', '4'], ['x y', 'x', 'y z', 'z', '\u03b1', '\u03b2'],
          ['TimeS', 'St', 'S', 'Tim', 'index', 'level']]
# names made of other names and a separator (not for documents that hold intensities, whose keys list names)
ODD = [['A', 'B', 'A,B', 'C', 'B,A', 'A,C'], ['a', 'b', 'a b', 'a_b', 'a-b', 'a|b'], ['p', 'q', 'p;q', 'pq', 'p:q', 'p.q'],
       ["X", "Y", "X', 'Y", '{X}', '[X, Y]', 'Z']]


def labels(rng, n, odd=0.0):
    ls = list(rng.choice(ODD if rng.random() < odd else LABELS))
    if rng.random() < 0.5:
        rng.shuffle(ls)
    return ls[:n]


def trajectory(rng, cards, rows, close=0.5, zero=0.1, maxdt=4, t0=None, one=True):
    """rows rows; usually one variable changes per row, sometimes none, several or a repetition."""
    t = rng.choice([0, 0, 0, 3, -2, -7]) if t0 is None else t0
    x = [rng.randrange(c) for c in cards] if rng.random() < 0.7 else [0] * len(cards)
    out = [[t] + x]
    while len(out) < rows:
        t += 0 if rng.random() < zero else rng.randint(1, maxdt)
        x = list(x)
        u = rng.random()
        k = 1 if (one or u < 0.7) else rng.randint(0, len(cards))
        for j in rng.sample(range(len(cards)), min(k, len(cards))):
            if cards[j] > 1:
                x[j] = rng.choice([v for v in range(cards[j]) if v != x[j]])
        out.append([t] + x)
    if rows > 1 and rng.random() < close:
        out[-1] = [out[-1][0]] + [-1] * len(cards)
    return out


def gaps(rng, d, cols):
    """Some states of the given columns unknown (-1), in any row but the first; often only part of the last row."""
    for t in d['traj']:
        for r in t[1:]:
            for c in cols:
                if rng.random() < 0.25:
                    r[1 + d['cols'].index(c)] = -1
    return d


def partial_close(rng, d):
    """The last row of some trajectories known in part."""
    for t in d['traj']:
        if len(t) > 1 and rng.random() < 0.6:
            for j in range(1, len(t[-1])):
                if rng.random() < 0.5:
                    t[-1][j] = -1
    return d


WIDE = [2, 3, 11, 12, 101, 130, 257, 300, 32769, 40000, 70000, 1000003]


def wild(rng, lens=(1, 2, 3, 5, 9), maxdt=2 ** 26, **k):
    """Large states, long and very short times, many variables or trajectories, states unknown here and there."""
    u = rng.random()
    n = rng.randint(1, 4) if u < 0.6 else rng.randint(6, 11)
    ls = labels(rng, n) if n < 6 else ['n%d' % i for i in rng.sample(range(40), n)]
    cards = [rng.choice(WIDE) for _ in range(n)]
    tr = []
    for _ in range(rng.randint(1, 4) if u < 0.85 else rng.randint(9, 25)):
        md = rng.choice([3, 3, 1000, maxdt])
        tr.append(trajectory(rng, cards, rng.choice(lens), one=rng.random() < 0.5, maxdt=md, t0=rng.choice([0, 0, 7, -1, rng.randint(0, maxdt), -rng.randint(0, maxdt)]), **k))
    d = dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cards)], edges=edges(rng, ls, rng.choice([0, 0.2])))
    if rng.random() < 0.4:
        gaps(rng, d, rng.sample(ls, rng.randint(1, n)))
    return d


def bulk(rng, rows, n=None, maxcard=4):
    """Trajectories of many rows, listed in short: a pattern, how often it is repeated and the time in between."""
    n = n or rng.randint(1, 3)
    cards = [rng.randint(2, maxcard) for _ in range(n)]
    tr = []
    for _ in range(rng.choice([1, 1, 2])):
        t, now = [], rng.choice([0, 3])
        for _ in range(rng.choice([2, 2, 3, 5, 8, 13])):
            t.append([now] + [rng.randrange(c) for c in cards])
            now += rng.choice([0, 1, 1, 2, 5])
        tr.append(t)
    ls = labels(rng, n)
    return dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cards)], edges=[], gap=rng.choice([1, 2, 3]),
                rep=max(2, rows // sum(map(len, tr)) + rng.randint(0, 5)))


def crowd(rng):
    """Many trajectories over few states and durations: the same trajectory and the same record occur again and again."""
    n = rng.randint(1, 3)
    ls = labels(rng, n)
    cards = [2] * n
    pool = [trajectory(rng, cards, rng.choice([1, 2, 3, 5]), maxdt=2, t0=0, one=rng.random() < 0.8) for _ in range(rng.randint(2, 8))]
    tr = [[list(r) for r in rng.choice(pool)] for _ in range(rng.choice([7, 9, 12, 20, 40, 40, 70, 130, 260]))]
    return dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cards)], edges=edges(rng, ls))


def edges(rng, ls, p=None):
    p = rng.choice([0, 0.2, 0.5, 1]) if p is None else p
    es = [[a, b] for a in ls for b in ls if a != b and rng.random() < p]
    rng.shuffle(es)
    return es


def dataset(rng, n=None, ntraj=None, lens=(1, 2, 3, 5, 9), maxcard=4, **k):
    n = n or rng.randint(1, 5)
    ls = labels(rng, n, 0.2)
    cards = [rng.randint(2, maxcard) for _ in range(n)]
    ntraj = ntraj or rng.randint(1, 4)
    tr = [trajectory(rng, cards, rng.choice(lens), one=rng.random() < 0.5, **k) for _ in range(ntraj)]
    return dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cards)], edges=edges(rng, ls))


def process(rng, cards, rows, dep, cache, close=0.5, zero=0.02, scale=2, most=12):
    """A trajectory of a jump process: dep maps a column to the columns it depends on, cache holds the laws drawn so far."""
    n = len(cards)

    def law(j, x):
        k = (j, x[j]) + tuple(x[p] for p in dep[j])
        if k not in cache:
            cache[k] = (rng.choice([0.1, 0.3, 1, 1, 3]), [rng.choice([0.1, 1, 1, 4]) for _ in range(cards[j])])
        return cache[k]
    t, x, out = 0, [0] * n, [[0] + [0] * n]
    while len(out) < rows:
        laws = [law(j, x) for j in range(n)]
        tot = sum(l[0] for l in laws)
        t += 0 if rng.random() < zero else min(most, max(1, round(rng.expovariate(tot) * scale + 0.5)))
        j = rng.choices(range(n), [l[0] for l in laws])[0]
        ws = [0 if v == x[j] else laws[j][1][v] for v in range(cards[j])]
        x = list(x)
        x[j] = rng.choices(range(cards[j]), ws)[0]
        out.append([t] + x)
    if rng.random() < close:
        out[-1] = [out[-1][0]] + [-1] * n
    return out


def network_data(rng, n, maxrows=90, maxcard=4, ntraj=None, most=0):
    ls = labels(rng, n, 0.2)
    cards = [rng.choice([2, 2, 3, 3, 4][:maxcard + 1]) for _ in range(n)]
    if most:
        cards = [rng.randint(most, 7) if rng.random() < 0.5 else rng.choice([2, 3]) for _ in range(n)]
    dep = {j: [i for i in range(n) if i != j and rng.random() < 0.4] for j in range(n)}
    ntraj = ntraj or rng.randint(1, 3)
    cache = {}
    tr = [process(rng, cards, max(2, maxrows // ntraj - rng.randint(0, 10)), dep, cache) for _ in range(ntraj)]
    return dict(cols=ls, traj=tr, vars=[[l, c] for l, c in zip(ls, cards)], edges=[])
