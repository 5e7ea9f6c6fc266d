from checks import sampling


def calls(rng):
    """Several calls on one generator, all rates at least 1."""
    n = rng.choice([1, 2, 2, 3])
    sc = dict(how=rng.choice(['objects', 'import', 'generated']), seed=rng.randrange(10 ** 6), stats=False, meta={})
    idle = rng.random() < 0.12                       # often nothing happens before the end
    sc['net'] = sampling.network(rng, n, maxcard=3, rates=(10000, 20000, 40000) if not idle else (100, 500, 5000))
    sc['draw'] = dict(density=0.4, lo=1, hi=4)
    cs = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choice([0, 1, 2, 3, 5, 7])
        u = rng.random()
        c = dict(a='multi', tends=[-1], maxtrs=[-1], gap=-1, reseed=False)
        if u < 0.35:
            c['maxtrs'] = [rng.choice([0, 1, 2, 7, 12, 20, 30]) for _ in range(k)]
            if rng.random() < 0.3:
                c['maxtrs'] = [12] * k
        elif u < 0.7:
            c['tends'] = [rng.choice([0, 1, 5000, 40000, 80000, 150000, 600000]) for _ in range(k)]
            if idle and sc['how'] != 'generated':
                c['tends'] = [rng.choice([0, 1, 5000, 20000, 60000]) for _ in range(k)]
            else:
                c['gap'] = 40 * 10000 // n
        elif u < 0.8:
            c['tends'] = [rng.choice([5000, 40000, 80000]) for _ in range(k + 1)]
            c['maxtrs'] = [rng.choice([3, 50]) for _ in range(rng.randint(1, 3))]
            cs.append(dict(c, both=True))
            continue
        elif u < 0.9:
            cs.append(dict(a='single', maxtr=rng.choice([8, 15])))
            continue
        cs.append(c)
    sc['calls'] = cs
    return sc


def many(rng):
    """More trajectories than there are processors."""
    sc = dict(how=rng.choice(['objects', 'import']), seed=rng.randrange(10 ** 6), stats=False, meta={})
    sc['net'] = sampling.network(rng, rng.choice([1, 2]), maxcard=2, rates=(10000, 20000, 40000))
    k = rng.choice([9, 10, 11, 13, 17, 20, 33])
    c = dict(a='multi', tends=[-1], maxtrs=[rng.choice([1, 3, 5, 12]) for _ in range(k)], gap=-1, reseed=False)
    if rng.random() < 0.4:
        c.update(maxtrs=[-1], tends=[rng.choice([5000, 20000, 40000]) for _ in range(k)], gap=40 * 10000 // len(sc['net']['labels']))
    sc['calls'] = [c, dict(a='single', maxtr=8)]
    return sc


def failing(rng):
    """Workers that fail between calls that do not, and bounds or networks for which sampling may fail."""
    sc = dict(how=rng.choice(['objects', 'import']), seed=rng.randrange(10 ** 6), stats=False, meta={})
    n = rng.choice([1, 2])
    stuck = rng.random() < 0.25
    sc['net'] = sampling.network(rng, n, maxcard=2, rates=(10000, 20000, 40000), stuck=1.0 if stuck else 0)
    cs = []
    for _ in range(3):
        k = rng.choice([1, 2, 3, 6, 10])
        c = dict(a='multi', tends=[-1], maxtrs=[rng.choice([3, 5, 9]) for _ in range(k)], gap=-1, reseed=False)
        u = rng.random()
        if stuck:
            c['must'] = 'any'
        elif u < 0.6:
            c['fault'] = dict(maxtr=rng.choice([3, 5, 9]), how=rng.choice(['raise', 'raise', 'exit', 'kill', 'leave', 'memory']))
        elif u < 0.75:
            ts = [rng.choice([5000, 20000, 40000]) for _ in range(k)]
            c.update(must='any', maxtrs=[-1], tends=ts, odd=rng.choice(ts))
        cs.append(c)
    if not stuck:
        cs.append(dict(a='single', maxtr=8))
    sc['calls'] = cs
    return sc


def patient(rng, rows):
    """One call with a long trajectory among short ones."""
    n = rng.choice([1, 2])
    sc = dict(how='objects', seed=rng.randrange(10 ** 6), stats=False, meta={})
    sc['net'] = sampling.network(rng, n, maxcard=3, rates=(10000, 20000, 40000))
    b = [10, rows, 20]
    rng.shuffle(b)
    sc['calls'] = [dict(a='multi', tends=[-1], maxtrs=b, gap=-1, reseed=False), dict(a='single', maxtr=8)]
    return sc


def run(c):
    c.model('MultiMC', cfg=c.n('MultiMC.cfg', 'MultiMC_thorough.cfg'), workers=8, expect_actions=('Call', 'FinishOne', 'Fail', 'Return', 'Report'))
    scs = [calls(c.rng) for _ in range(c.n(110, 1500))]
    scs += [many(c.rng) for _ in range(c.n(5, 60))]
    scs += [failing(c.rng) for _ in range(c.n(16, 160))]
    scs += [patient(c.rng, c.n(6000, 15000)) for _ in range(c.n(2, 8))]
    one = dict(labels=['A'], cards=[2], edges=[], q=[[dict(comb=[], m=[[-10000, 10000], [10000, -10000]])]])
    scs += [dict(how='objects', seed=c.rng.randrange(10 ** 6), stats=False, meta={}, net=one, fair=c.n(40, 150), width=8, calls=[])
            for _ in range(4)]
    tr = c.drive('multi', scs, limit=120, procs=6)
    paths = []
    for t in tr:
        if t and t['meta'].get('trajs'):
            tj = t['meta'].pop('trajs')
            paths.append(dict(meta=t['meta'], ev=[e for x in tj for e in x]))
    c.validate('MultiTrace', tr, batch=60)
    if paths:
        c.validate('SamplingTrace', paths, batch=60)
