import gen
from checks import pool

BAD = ['nobody', '', 'X Y']


def learn(rng, n, ests, k, fault):
    e = ests[k - 1]
    s = dict(a='learn', est=k, key='learn %d' % e['group'], seed=rng.randrange(10 ** 6), procs=rng.choice([0, 0, 1, 2, 3]))
    if e['kind'] == 'score':
        s['kw'] = dict(pool.LONG, optimizer=rng.choice(['hill', 'tabu']))
        if fault and rng.random() < 0.2:        # options that can not be used (unless nothing is left to search)
            s['kw'].update(rng.choice([dict(iterations_number='many'), dict(iterations_number=None), dict(optimizer='tabu', tabu_rules_duration=0), dict(max_parents='two')]))
            s['odd'] = True
            return s
    if fault:
        how = rng.choice(['raise', 'raise', 'memory', 'interrupt', 'exit', 'exit'])
        if how == 'exit' and s['procs'] == 0:
            s['procs'] = rng.choice([1, 2, 3])
        deep = rng.choice([0, 0, 1, 2]) if e['kind'] != 'ctpc' else 0
        after = 1 if rng.random() < 0.5 else rng.choice([2, 3, 5])
        s['fault'] = dict(node=rng.randint(1, n), after=after, how=how, deep=deep)
    return s


def scenario(rng):
    n, ds = pool.network(rng, rng.choice([2, 3, 3, 4]), rows=(3, 20, 60))
    pr = pool.prior(rng, n, ds, 0.25)
    ds['edges'] = pr['edges']
    ests = []
    for g in range(1, rng.choice([2, 2, 3]) + 1):
        kn = pool.some(rng, pool.pairs(n), rng.choice([0, 0, 0.2]))
        kind = rng.choice(['ctpc', 'real', 'score'])
        e = dict(pool.estimator(rng, n, ds, 'ctpc' if kind == 'real' else kind, 0, kn), kind=kind, group=g)
        ests.append(e)
        if rng.random() < 0.5:
            ests.append(dict(e))
    names = gen.labels(rng, rng.choice([2, 3]))
    sc = dict(meta={}, ds=ds, has=pr['has'], ests=ests, gen=dict(labels=names, cards=[rng.choice([2, 3]) for _ in names], seed=rng.randrange(10 ** 6), density=rng.choice([0, 0.5, 1])))
    steps = []

    sc['spoil'] = rng.choice(['samples', 'variables', 'edges', 'empty', 'time', 'text'])

    def load(i):
        if i == 1:
            k = rng.choice([0, 1, 2, 2, 5])
            s = dict(arg=k, what='entry %d' % k, must='ok' if k < 2 else 'fail')
        else:
            h = list(ds['cols'])
            rng.shuffle(h)
            bad = rng.random() < 0.5
            if bad:
                h[rng.randrange(len(h))] = rng.choice(BAD + ['a note'])
            s = dict(arg=h, what='columns %s' % h, must='fail' if bad else 'ok')
        steps.append(dict(a='load', i=i, **s))
        steps.append(dict(a='held', i=i))

    def op(a, key='', must='ok', **k):
        steps.append(dict(a=a, key=key or a, must=must, **k))
    for k in range(len(ests)):
        steps.append(dict(a='look', est=k + 1))
    for _ in range(rng.choice([3, 5, 8])):
        u = rng.random()
        if u < 0.54:
            k = rng.randint(1, len(ests))
            steps.append(learn(rng, n, ests, k, rng.random() < 0.6))
            steps.append(dict(a='look', est=k))
            if rng.random() < 0.3:
                op('saved', 'x', 'fail', est=k, name='no/such/folder.json')
        elif u < 0.66:
            for _ in range(rng.choice([1, 2, 3])):
                load(rng.choice([1, 2]))
        elif u < 0.72:
            i = rng.choice([0, 0, 1, 2, 7])
            if i < 2:
                op('imported', 'import %d' % i, i=i)
            else:
                op('imported', 'x', 'fail', i=i)
        elif u < 0.78:
            i = rng.choice([0, 1])
            op('pathof', 'path %d' % i if i == 0 else 'x', 'ok' if i == 0 else 'fail', i=i)
        elif u < 0.86:
            op('out', 'x', 'fail', name='no/such/folder.json') if rng.random() < 0.5 else None
            op('out', 'document', name=rng.choice(['a.json', 'b.json']))
        elif u < 0.9:
            op('spoiled', 'document', name='b.json')
        elif u < 0.95:
            b = rng.choice([[3, 7], [7], [2, 3, 7, 5]])
            op('several', 'several %s' % b, maxtrs=b, fault=dict(maxtr=rng.choice(b + [9]), how=rng.choice(['raise', 'exit', 'kill', 'leave', 'memory'])))
            k = rng.choice([5, 9])
            op('sample', 'sample %d' % k, rows=k, seed=k)
            op('several', 'several %s' % b, maxtrs=b)
        elif u < 0.97:
            if rng.random() < 0.5:
                op('generate', 'x', 'fail', density=0.3123)
            else:
                op('cims', 'x', 'fail', lo=rng.choice(['one', None]), hi=5)
            op('network')
        else:
            op(rng.choice(['removenode', 'removegraph', 'removeedge', 'lookup', 'states', 'known']), 'x', 'fail', node=rng.choice(BAD))
            op('structure')
    op('structure')
    op('network')
    for k in range(len(ests)):
        steps.append(learn(rng, n, ests, k + 1, False))
        steps.append(dict(a='look', est=k + 1))
    sc['steps'] = steps
    return sc


def run(c):
    c.model('FaultMC', cfg=c.n('FaultMC.cfg', 'FaultMC_thorough.cfg'), workers=8, timeout=800, expect_actions=('Start', 'Take', 'Done', 'Raise', 'Die', 'Interrupt', 'Collect', 'Abort'))
    scs = [scenario(c.rng) for _ in range(c.n(90, 900))]
    c.validate('FaultTrace', c.drive('fault', scs, limit=80, procs=5), batch=30)
