import itertools
import gen


def combs(cards):
    return [list(c) for c in itertools.product(*[range(k) for k in cards])]


def network(rng, n, ternary, gain):
    """Every parent multiplies the rates of its children (or turns their destinations round); every matrix is doubly
    stochastic in the long run, so that all states are about equally frequent and no effect hides another."""
    ls = gen.labels(rng, n)
    cards = [3 if ternary and rng.random() < 0.5 else 2 for _ in range(n)]
    es = []
    most = 2 if not ternary else 1
    for x in range(1, n + 1):
        ps = rng.sample([y for y in range(1, n + 1) if y != x], min(n - 1, rng.choice([0, 1, 1, 2, 2])))[:most]
        es += [[p, x] for p in ps]
    rng.shuffle(es)
    q = []
    for x in range(1, n + 1):
        ps = sorted(a for a, b in es if b == x)
        c = cards[x - 1]
        base = rng.choice([10000, 15000, 20000]) if len(ps) < 2 else rng.choice([12000, 15000])
        g = gain if len(ps) < 2 else 3.3
        up = {p: rng.random() < 0.5 for p in ps}
        turn = rng.choice(ps) if ps and c == 3 and rng.random() < 0.6 else 0
        node = []
        for u in combs([cards[p - 1] for p in ps]):
            r, goal = base, 50
            for p, s in zip(ps, u):
                part = s / (cards[p - 1] - 1)
                part = part if up[p] else 1 - part
                if p == turn:
                    goal = 10 + round(80 * part)
                else:
                    r *= g ** part
            r = int(r) // 10000 * 10000 if c == 3 else int(r) // 100 * 100
            m = [[0] * c for _ in range(c)]
            for i in range(c):
                m[i][i] = -r
                if c == 2:
                    m[i][1 - i] = r
                else:
                    m[i][(i + 1) % 3] = r * goal // 100 // 100 * 100
                    m[i][(i + 2) % 3] = r - m[i][(i + 1) % 3]
            node.append(dict(comb=u, m=m))
        q.append(node)
    return dict(labels=ls, cards=cards, edges=es, q=q)


def following(rng, n):
    """Every variable is drawn to the states of its parents (each variable under its own names of states): all variables
    are correlated, and only the full set of parents explains the others away."""
    ls = gen.labels(rng, n)
    es = []
    roots = rng.choice([1, 2, 2, 2]) if n > 2 else 1
    for x in range(roots + 1, n + 1):
        ps = rng.sample(range(1, n + 1 if rng.random() < 0.2 else x), 2 if rng.random() < 0.8 and x > 2 else 1)
        es += [[p, x] for p in ps if p != x]
    names = list(range(1, n + 1))
    rng.shuffle(names)
    es = [[names[a - 1], names[b - 1]] for a, b in es]
    rng.shuffle(es)
    turned = [rng.random() < 0.4 for _ in range(n)]
    q = []
    for x in range(1, n + 1):
        ps = sorted(a for a, b in es if b == x)
        base = rng.choice([4000, 6000, 10000]) if not ps else rng.choice([8000, 10000, 12000])
        node = []
        for u in combs([2] * len(ps)):
            ones = sum(s != turned[p - 1] for p, s in zip(ps, u))
            up, down = [int(base * 4 ** k) // 100 * 100 for k in (ones, len(ps) - ones)]
            a, b = (down, up) if turned[x - 1] else (up, down)
            node.append(dict(comb=u, m=[[-a, a], [b, -b]]))
        q.append(node)
    return dict(labels=ls, cards=[2] * n, edges=es, q=q)


def task(rng, net, ternary, follow):
    n = len(net['labels'])
    order = list(range(1, n + 1))
    rng.shuffle(order)
    absent = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if a != b and [a, b] not in net['edges']]
    t = dict(how=rng.choice(['objects', 'import']), rows=rng.choice([800, 1000, 2500]), enough=200 if follow else 60, fit=True,
             route=rng.choice(['memory', 'memory', 'document']), order=order, prior=rng.choice(['none', 'truth', 'other']),
             wrong=rng.sample(absent, min(len(absent), 2)), learn=[])
    t['least'], t['most'] = (2500 if not ternary else 4000) // t['rows'] + 1, 24000 // t['rows']
    for alg in ['ctpc', rng.choice(['hill', 'tabu'])]:
        known = [e for e in net['edges'] if rng.random() < 0.3] if rng.random() < 0.5 else []
        t['learn'].append(dict(alg=alg, known=known, alone=rng.random() < 0.9, sign=rng.choice([1e-5, 1e-6]), thumb=2 if ternary else 25, iters=60 * (n - 1)))
    return t


def scenario(rng, m):
    sc = dict(seed=rng.randrange(10 ** 6), meta={}, nets=[], tasks=[])
    for _ in range(m):
        follow = False
        n, ternary = rng.choice([(2, False), (2, True), (3, False), (3, False), (3, True), (4, False)])
        if rng.random() < 0.5:
            n, ternary, follow = rng.choice([3, 4, 4, 4, 5]), False, True
            sc['nets'].append(following(rng, n))
        else:
            sc['nets'].append(network(rng, n, ternary, rng.choice([4, 4.5, 5])))
        sc['tasks'].append(task(rng, sc['nets'][-1], ternary, follow))
    return sc


def run(c):
    c.model('RecoveryMC', cfg=c.n('RecoveryMC.cfg', 'RecoveryMC_thorough.cfg'), workers=8, expect_actions=('Test', 'Level', 'EndTests', 'Propose', 'Settle'))
    tr = c.drive('recovery', [scenario(c.rng, 3) for _ in range(c.n(16, 200))], limit=250, total=780)
    c.validate('RecoveryTrace', tr, batch=4)
