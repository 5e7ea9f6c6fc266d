import gen
from checks import sampling


def op(rng, sc):
    ls = sc['ds']['cols']
    u = rng.random()
    if sc['mostly'] and rng.random() < 0.8:
        u = sc['mostly']
    if u < 0.15:
        n = len(sc['gen']['labels'])
        if rng.random() < 0.4 and n > 1:
            return dict(a='graph', density=rng.randint(0, n * (n - 1)) / (n * (n - 1)), fixed=True)
        return dict(a='graph', density=rng.choice([0.2, 0.5, 0.8]), fixed=False)
    if u < 0.3:
        return dict(a='network', density=rng.choice([0.2, 0.5]), lo=1, hi=rng.choice([2, 7]))
    if u < 0.4:
        return dict(a='chain', density=0.4, lo=1, hi=4, maxtr=rng.choice([1, 10, 40]))
    if u < 0.65:
        return dict(a='sample', bound=dict(max_tr=rng.choice([1, 5, 40, 150])) if rng.random() < 0.7 else dict(t_end=rng.choice([0.5, 2.0, 20.0])))
    if u < 0.75:
        k = rng.choice([1, 2, 4])
        return dict(a='multi', bound=dict(max_trs=[rng.choice([3, 12]) for _ in range(k)]) if rng.random() < 0.6 else dict(t_ends=[rng.choice([0.5, 1.5]) for _ in range(k)]))
    if u < 0.8:
        return dict(a='learn', alg='ctpc', alone=rng.random() < 0.7)
    opts = dict(iterations_number=rng.choice([1, 2, 3, 5, 9]), patience=rng.choice([None, 0, 2]), max_parents=rng.choice([None, 1, 2]))
    return dict(a='learn', alg=rng.choice(['hill', 'tabu']), node=rng.choice([''] + ls), opts=opts)


def scenario(rng):
    n = rng.choice([2, 3, 4])
    sc = dict(gen=dict(labels=gen.labels(rng, n), cards=[rng.choice([2, 3]) for _ in range(n)]),
              net=sampling.network(rng, rng.choice([1, 2, 3]), maxcard=3), ds=gen.dataset(rng, n=rng.choice([3, 4, 5]), ntraj=1, lens=(20, 40), maxcard=3))
    sc['ds']['edges'] = []
    sc['mostly'] = rng.choice([None, None, None, 0.2, 0.5, 0.5, 0.7, 0.9])      # one kind of operation again and again
    seeds = [rng.randrange(10 ** 6) for _ in range(2)]
    plan = {s: [op(rng, sc) for _ in range(rng.choice([2, 4, 6]))] for s in seeds}
    lives = []
    for s in seeds + seeds:
        lives.append(dict(seed=s, fresh=rng.random() < 0.5, before=[op(rng, sc) for _ in range(rng.choice([0, 0, 1, 2]))], ops=plan[s]))
    sc['lives'] = lives
    sc['meta'] = {}
    return sc


def run(c):
    c.model('ReproMC', cfg=c.n('ReproMC.cfg', 'ReproMC_thorough.cfg'), workers=8, expect_actions=('Seed', 'Draw', 'Split', 'End', 'Join'))
    scs = [scenario(c.rng) for _ in range(c.n(60, 700))]
    one = c.drive('repro', scs, limit=120)
    two = c.drive('repro', [dict(s, lives=s['lives'][:2]) for s in scs[::-1]], limit=120, procs=5, hashing=501)[::-1]
    tr = []
    for a, b in zip(one, two):
        if a and b:
            tr.append(dict(meta=a['meta'], ev=a['ev'] + b['ev']))
        elif a or b:
            tr.append(a or b)
    c.validate('ReproTrace', tr, batch=20)
