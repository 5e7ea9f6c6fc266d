"""Scenario generators for C18, C19, C20, C21."""
import itertools
import gen


def combs(cards):
    return [list(c) for c in itertools.product(*[range(k) for k in cards])]


def network(rng, n, maxcard=4, maxconf=24, zeros=True, stuck=0.0, rates=(2500, 5000, 10000, 20000, 40000, 80000), dense=None):
    """labels, cards, edges (any order), intensities in 1/10000."""
    ls = gen.labels(rng, n)
    cards = [rng.randint(2, maxcard) for _ in range(n)]
    p = rng.choice([0.2, 0.4, 0.7]) if dense is None else dense
    es = []
    for x in range(1, n + 1):
        k = 1
        for y in rng.sample(range(1, n + 1), n):
            if y != x and rng.random() < p and k * cards[y - 1] <= maxconf:
                es.append([y, x])
                k *= cards[y - 1]
    rng.shuffle(es)
    ps = [sorted(a for a, b in es if b == x) for x in range(1, n + 1)]
    q = []
    for x in range(1, n + 1):
        c = cards[x - 1]
        node = []
        for comb in combs([cards[y - 1] for y in ps[x - 1]]):
            m = [[0] * c for _ in range(c)]
            for i in range(c):
                if rng.random() < stuck:
                    continue
                r = rng.choice(rates)
                w = [0 if j == i else rng.choice([0, 1, 1, 4] if zeros else [1, 1, 4]) for j in range(c)]
                if not any(w):
                    w[rng.choice([j for j in range(c) if j != i])] = 1
                parts = [r * v // sum(w) // 100 * 100 for v in w]
                parts[w.index(max(w))] += r - sum(parts)
                for j in range(c):
                    m[i][j] = -r if j == i else parts[j]
            node.append(dict(comb=comb, m=m))
        q.append(node)
    return dict(labels=ls, cards=cards, edges=es, q=q)


def rounded(net):
    """The network with all intensities rounded up to whole numbers."""
    for node in net['q']:
        for c in node:
            for i, r in enumerate(c['m']):
                r[:] = [0 if j == i else -(-v // 10000) * 10000 for j, v in enumerate(r)]
                r[i] = -sum(r)
    return net


def valid(rng, rows=(0, 1, 2, 10, 40)):
    """Any network, bounded either way; some have states that are never left."""
    n = rng.choice([1, 1, 2, 3, 4, 5])
    how = rng.choice(['objects', 'objects', 'import', 'import', 'generated'])
    sc = dict(how=how, seed=rng.randrange(10 ** 6), stats=False)
    if how == 'generated':
        sc['net'] = dict(labels=gen.labels(rng, n), cards=[rng.choice([2, 2, 3, 4]) for _ in range(n)])
        sc['draw'] = dict(density=rng.choice([0, 0.3, 0.6]), lo=1, hi=rng.choice([2, 9]))
        stuck = 0
    else:
        stuck = rng.choice([0, 0, 0.3])
        sc['net'] = network(rng, n, maxcard=rng.choice([3, 4, 12]) if n < 4 else 4, stuck=stuck)
        if rng.random() < 0.3:
            sc['ints'] = True
            rounded(sc['net'])
    if how != 'generated' and rng.random() < 0.15:             # slow networks, observed for long
        rs, k = rng.choice([((5, 10, 40), 40), ((100, 400), 120)])
        sc['net'] = network(rng, n, maxcard=3, rates=rs, stuck=0)
        sc['runs'] = [dict(maxtr=-1, tend=rng.choice([2 * 10 ** 7, 77777777])), dict(maxtr=k, tend=-1)]
        sc['meta'] = dict(how=how, seed=sc['seed'])
        return sc
    runs = []
    for _ in range(rng.randint(1, 3)):
        if stuck or rng.random() < 0.5:
            runs.append(dict(maxtr=-1, tend=rng.choice([0, 1, 50, 5000, 10000, 30000, 77777, 120000])))
        else:
            runs.append(dict(maxtr=rng.choice(rows), tend=-1))
    sc['runs'] = runs
    sc['meta'] = dict(how=how, seed=sc['seed'])
    return sc


def rated(rng, total):
    """A network whose transitions are counted and compared with the intensities."""
    n = rng.choice([1, 2, 2, 3, 3, 4])
    how = rng.choice(['objects', 'import', 'import', 'generated'])
    sc = dict(how=how, seed=rng.randrange(10 ** 6), stats=True)
    if how == 'generated':
        sc['net'] = dict(labels=gen.labels(rng, n), cards=[rng.choice([2, 2, 3]) for _ in range(n)])
        sc['draw'] = dict(density=rng.choice([0.3, 0.6, 1]), lo=1, hi=9)
    else:
        sc['net'] = network(rng, n, maxcard=3, maxconf=rng.choice([4, 9, 12]), dense=rng.choice([0.3, 0.6, 1]))
        if rng.random() < 0.25:
            sc['ints'] = True
            rounded(sc['net'])
    if rng.random() < 0.6:
        k = rng.choice([1, 1, 2, 3])
        runs = [dict(maxtr=total // k, tend=-1) for _ in range(k)]
    else:
        runs = [dict(maxtr=-1, tend=total * 10000 // (2 * n)), ]
    sc['runs'] = runs
    sc['meta'] = dict(how=how, seed=sc['seed'])
    return sc


def star(rng, total):
    """One variable with three to five parents, whose rates differ widely between configurations; children in a chain."""
    k = rng.choice([3, 3, 4, 5])
    n = k + 1 + rng.choice([0, 0, 1])
    order = list(range(1, n + 1))
    rng.shuffle(order)
    ps, x, rest = sorted(order[:k]), order[k], order[k + 1:]
    es = [[p, x] for p in ps] + [[x, r] for r in rest]
    if rng.random() < 0.3:
        es.append([x, ps[0]])
    rng.shuffle(es)
    cards = [2 if y in ps or k > 3 else rng.choice([2, 3]) for y in range(1, n + 1)]
    q = []
    for y in range(1, n + 1):
        us = sorted(a for a, b in es if b == y)
        node = []
        for comb in combs([cards[u - 1] for u in us]):
            c = cards[y - 1]
            m = [[0] * c for _ in range(c)]
            r = rng.choice([1000, 80000]) if y not in ps else rng.choice([5000, 10000])
            for i in range(c):
                for j in range(c):
                    m[i][j] = -r * (c - 1) if i == j else r
            node.append(dict(comb=comb, m=m))
        q.append(node)
    return dict(labels=gen.labels(rng, n) if n < 7 else ['n%d' % i for i in range(n)], cards=cards, edges=es, q=q)


def turns(rng, total):
    """One variable with two to five parents, of which one changes often and decides how fast the variable is, wherever the others are."""
    k = rng.choice([2, 3, 3, 4, 5])
    n = k + 1
    x = rng.randint(1, n)
    ps = [y for y in range(1, n + 1) if y != x]
    mover = rng.choice([ps[0], ps[-1], rng.choice(ps)])
    cards = [2 if k > 3 else rng.choice([2, 2, 3]) for _ in range(n)]
    q = []
    for y in range(1, n + 1):
        us, c, node = (ps if y == x else []), cards[y - 1], []
        for comb in combs([cards[u - 1] for u in us]):
            if y == x:
                r = 40000 if (comb[ps.index(mover)] % 2 == 1) != (rng.random() < 0.07) else 1000
            else:
                r = 6000 if y == mover else 400
            node.append(dict(comb=comb, m=[[-r * (c - 1) if i == j else r for j in range(c)] for i in range(c)]))
        q.append(node)
    es = [[p, x] for p in ps]
    rng.shuffle(es)
    return dict(labels=gen.labels(rng, n), cards=cards, edges=es, q=q)


def fan(rng, total):
    """One variable that decides how fast each of its three to five children is; some of them have a parent that seldom changes, too."""
    k = rng.choice([3, 3, 4, 5])
    n = k + 2
    mover, other = rng.sample(range(1, n + 1), 2)
    es = [[mover, x] for x in range(1, n + 1) if x not in (mover, other)]
    es += [[other, x] for a, x in es if rng.random() < 0.4]
    q = []
    for y in range(1, n + 1):
        us, node = sorted(a for a, b in es if b == y), []
        side = rng.randrange(2)
        for comb in combs([2] * len(us)):
            r = dict(zip(us, comb)).get(mover)
            r = (9000 if y == mover else 400) if r is None else 20000 if r == side else 600
            node.append(dict(comb=comb, m=[[-r, r], [r, -r]]))
        q.append(node)
    rng.shuffle(es)
    return dict(labels=['n%d' % i for i in rng.sample(range(30), n)], cards=[2] * n, edges=es, q=q)


def skewed(rng, total):
    """Variables with many states and unequal intensities in every row."""
    n = rng.choice([1, 2])
    net = network(rng, n, maxcard=2, dense=rng.choice([0, 1]))
    net['cards'] = [rng.choice([4, 5, 7]) if j == 0 else 2 for j in range(n)]
    net['q'] = []
    for x in range(1, n + 1):
        us, c = sorted(a for a, b in net['edges'] if b == x), net['cards'][x - 1]
        node = []
        for comb in combs([net['cards'][u - 1] for u in us]):
            m = []
            for i in range(c):
                w = [0 if j == i else rng.choice([500, 2000, 20000]) for j in range(c)]
                w[i] = -sum(w)
                m.append(w)
            node.append(dict(comb=comb, m=m))
        net['q'].append(node)
    return net


def slow(rng, total):
    """Rates down to a hundredth beside rates of one and more."""
    n = rng.choice([1, 1, 2, 3])
    return network(rng, n, maxcard=rng.choice([2, 3]), maxconf=3, zeros=False, rates=(100, 200, 10000, 40000), dense=0.5)


def wide(rng, total):
    """One variable whose two parents have more than ten states, and linger in the first two and the last two."""
    k = [rng.choice([11, 12, 12, 13]), rng.choice([11, 12, 12, 13])]
    x = rng.choice([1, 2, 3])
    cards = list(k)
    cards.insert(x - 1, 2)
    ps = [y for y in (1, 2, 3) if y != x]
    q = []
    for y in (1, 2, 3):
        c = cards[y - 1]
        node = []
        if y == x:
            for a, b in combs(k):
                r = 40000 if (a > b) != (rng.random() < 0.1) else 2000
                node.append(dict(comb=[a, b], m=[[-r, r], [r, -r]]))
        else:
            stay = [0, 1, c - 2, c - 1]
            m = [[0] * c for _ in range(c)]
            for i in range(c):
                to = [j for j in stay if j != i]
                for j in to:
                    m[i][j] = 300 if i in stay else 50000
                if i in stay and rng.random() < 0.2:
                    m[i][rng.choice([j for j in range(c) if j not in stay])] = 100
                m[i][i] = -sum(m[i])
            node.append(dict(comb=[], m=m))
        q.append(node)
    es = [[p, x] for p in ps]
    rng.shuffle(es)
    return dict(labels=gen.labels(rng, 3), cards=cards, edges=es, q=q)


def shaped(rng, total, f=None):
    f = f or rng.choice([star, star, skewed, skewed, slow, wide])
    sc = dict(how=rng.choice(['objects', 'import']), seed=rng.randrange(10 ** 6), stats=True, net=f(rng, total))
    sc['runs'] = [dict(maxtr=total if f is not slow else min(total, 800), tend=-1)]
    sc['meta'] = dict(how=sc['how'], seed=sc['seed'])
    return sc


def model(c):
    c.model('SamplingMC', cfg=c.n('SamplingMC.cfg', 'SamplingMC_thorough.cfg'), workers=8, expect_actions=('Draw', 'Fire', 'Close'))
