"""Scenario generators for C01, C02 and C03 (driver importing.py, trace specification ImportingTrace)."""
import gen

KEYS = [dict(samples='samples', structure='dyn.str', variables='variables', time='Time', vname='Name'),
        dict(samples='s', structure='e', variables='v', time='t', vname='Var'),
        dict(samples='data', structure='structure', variables='vars', time='clock', vname='Time'),
        dict(samples='samples', structure='Time', variables='Name', time='when', vname='label')]
UNITS = [1.0, 0.25, 0.5, 0.125, 2.0]
FINE = UNITS + [1e-6, 0.001, 0.1, 3600.0]


def mixed(rng):
    return rng.randint(1, 10 ** 6) if rng.random() < 0.4 else 0


def keys_for(rng, ds):
    while True:
        k = rng.choice(KEYS)
        if all(k['time'] not in d['cols'] for d in ds):
            return k


def timecol(rng, d):
    return next(c for c in rng.sample(['Time', 't', 'when', 'Time', 'clock'], 5) if c not in d['cols'])


def timed(rng, data):
    """A variable called Time (the times are kept under another name)."""
    if any('Time' in d['cols'] for d in data):
        return
    for d in data:
        old = rng.choice(d['cols'])

        def ren(l):
            return 'Time' if l == old else l
        d.update(cols=list(map(ren, d['cols'])), vars=[[ren(l), k] for l, k in d['vars']], edges=[list(map(ren, e)) for e in d['edges']])


def new_sample(rng, k, data, di, **o):
    return dict(a='new', k=k, kind='sample', ds=[di], timecol=timecol(rng, data[di - 1]),
                dtype=rng.choice(['int', 'float']), timeint=o.pop('timeint', False),
                index=rng.choice(['plain', 'dup', 'rev', 'str']), vindex=rng.choice(['plain', 'shift', 'rev', 'name']),
                aslist=rng.random() < 0.2, noprior=rng.random() < 0.5, mixed=mixed(rng), **o)


def new_json(rng, k, data, ds, **o):
    return dict(a='new', k=k, kind='json', ds=ds, keys=keys_for(rng, [data[i - 1] for i in ds]), tpos=rng.choice([0, 0, 1, 9]),
                bare=rng.random() < 0.5, mixed=mixed(rng), **o)


def header(rng, d):
    if rng.random() < 0.6:
        return []
    h = list(d['cols'])
    if rng.random() < 0.7:
        rng.shuffle(h)
    if rng.random() < 0.3:
        h = h[:rng.randint(1, len(h))]
    return h


def imports(rng, big=False):
    """C01: one importer, one import, many shapes of data."""
    lens = (1, 2, 3, 5, 9, 40) if big else (1, 2, 3, 5, 9)
    if rng.random() < 0.12:
        d = gen.crowd(rng)
    else:
        d = (gen.wild if rng.random() < 0.35 else gen.dataset)(rng, lens=lens, zero=rng.choice([0, 0.1, 0.5]))
    unit = rng.choice(FINE)
    data = [d]
    if rng.random() < 0.1:
        timed(rng, data)
    if rng.random() < 0.75:
        s = new_sample(rng, 1, data, 1, timeint=rng.random() < 0.4)
        if s['timeint']:
            unit = 1.0
        h = header(rng, d)
        if h and rng.random() < 0.5:
            s['note'] = rng.randint(1, 9)
    else:
        s, h = new_json(rng, 1, data, [1]), []
    return dict(meta=dict(data=data), unit=unit, steps=[s, dict(a='import', k=1, i=1, header=h)])


def bulk(rng, rows, build=False):
    """Tens of thousands of records and more."""
    d = gen.bulk(rng, rng.choice([rows // 8, rows // 2, rows]))
    data = [d]
    s, h = new_sample(rng, 1, data, 1), header(rng, d) if not build else []
    s['mixed'] = 0
    steps = [s, dict(a='import', k=1, i=1, header=h)]
    if build:
        steps += [dict(a='path', k=1), dict(a='build', k=1, first=rng.choice(['structure', 'trajectories']))]
    return dict(meta=dict(data=data), unit=rng.choice(UNITS), steps=steps)


def histories(rng):
    """C02: several importers over the same data sets, interleaved imports, re-imports and paths."""
    data = [(gen.wild if rng.random() < 0.15 else gen.dataset)(rng, lens=(2, 3, 5)) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:                  # networks over the same names that differ in all the rest, or only in some of it
        for j in range(1, len(data)):
            d = gen.dataset(rng, n=len(data[0]['cols']), lens=(2, 3, 5))
            ren = dict(zip(d['cols'], data[0]['cols']))
            data[j] = dict(cols=list(data[0]['cols']), traj=d['traj'] if rng.random() < 0.7 else data[0]['traj'],
                           vars=[[ren[a], k] for a, k in d['vars']] if rng.random() < 0.7 else data[0]['vars'],
                           edges=[[ren[a], ren[b]] for a, b in d['edges']] if rng.random() < 0.7 else data[0]['edges'])
            if data[j]['traj'] is data[0]['traj']:
                data[j]['vars'] = data[0]['vars']
    if rng.random() < 0.15:
        timed(rng, data)
    steps, imps = [], {}
    for k in range(1, rng.randint(2, 4)):
        if rng.random() < 0.6:
            s = new_json(rng, k, data, [rng.randint(1, len(data)) for _ in range(rng.randint(1, 3))])
            if len(s['ds']) > 1:
                s['bare'] = False
        else:
            s = new_sample(rng, k, data, rng.randint(1, len(data)))
        imps[k] = s
        steps.append(s)
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(list(imps))
        i = rng.randint(1, len(imps[k]['ds']))
        d = data[imps[k]['ds'][i - 1] - 1]
        h = header(rng, d) if imps[k]['kind'] == 'sample' else []
        steps.append(dict(a='import', k=k, i=i, header=h))
        if rng.random() < 0.4:
            steps += [dict(a='path', k=k), dict(a='build', k=k, first='trajectories')]
    return dict(meta=dict(data=data), unit=rng.choice(UNITS), steps=steps)


def paths(rng):
    """C03: refusals and mirrors."""
    d = (gen.wild if rng.random() < 0.2 else gen.dataset)(rng, lens=rng.choice([(1,), (2, 3, 5), (1, 2, 6)]))
    mode = rng.choice(['ok'] * 5 + ['novars', 'emptyvars', 'mismatch', 'mismatch', 'notimported', 'twice', 'header', 'array', 'array', 'nothing'])
    o = {}
    if mode == 'novars':
        d['vars'], o['novars'] = [], True
    elif mode in ('array', 'nothing'):      # an importer of the user's own that keeps its records in an array
        o['own'] = mode
    elif mode == 'emptyvars':
        d['vars'] = []
    elif mode == 'mismatch' and len(d['vars']) > 1:
        k = rng.choice(['swap', 'drop', 'rename', 'cut', 'more'])
        if k == 'swap':
            i, j = rng.sample(range(len(d['vars'])), 2)
            d['vars'][i], d['vars'][j] = d['vars'][j], d['vars'][i]
        elif k == 'drop':
            d['vars'].pop(rng.randrange(len(d['vars'])))
        elif k == 'cut':                    # what is there agrees
            d['vars'].pop()
        elif k == 'more':
            d['vars'].append([d['vars'][-1][0] + "'", 2])
        else:
            d['vars'][rng.randrange(len(d['vars']))][0] += "'"
        ls = [v[0] for v in d['vars']]
        d['edges'] = gen.edges(rng, ls)
    data = [d]
    usejson = mode not in ('novars', 'emptyvars', 'array', 'nothing') and rng.random() < 0.35
    s = new_json(rng, 1, data, [1]) if usejson else new_sample(rng, 1, data, 1, **o)
    if d['vars'] == []:
        s['vindex'], s['aslist'] = 'plain', False
    steps = [s]
    h = []
    if mode == 'header' and not usejson:
        h = list(d['cols'])
        rng.shuffle(h)
        if rng.random() < 0.4:
            h = h[:rng.randint(1, len(h))]
            d['edges'] = [e for e in d['edges'] if e[0] in h and e[1] in h]
        if rng.random() < 0.4:
            s['note'] = rng.randint(1, 9)
        d['vars'] = [[l, dict(map(tuple, d['vars']))[l]] for l in h] if rng.random() < 0.6 else d['vars']
    if mode not in ('notimported', 'nothing'):
        steps.append(dict(a='import', k=1, i=1, header=h))
    one = [dict(a='path', k=1), dict(a='build', k=1, first=rng.choice(['trajectories', 'structure']))]
    steps += one
    ok = mode in ('ok', 'twice') and any(len(t) > 1 for t in d['traj'])
    if mode == 'twice':
        steps += one
        if rng.random() < 0.5:
            steps += [dict(a='import', k=1, i=1, header=h)] + one
    elif ok:
        es = [list(x) for x in d['edges']]
        ls = [v[0] for v in d['vars']]
        pool = [[a, b] for a in ls for b in ls if a != b]
        for _ in range(rng.randint(0, 8) if pool else 0):
            op = rng.choice(['has', 'has', 'add', 'remove'])
            e = rng.choice(es) if es and (op == 'remove' or rng.random() < 0.4) else rng.choice(pool)
            if op == 'remove' and e not in es:
                continue
            if op == 'add':
                if e in es:
                    continue
                es.append(e)
            if op == 'remove':
                es.remove(e)
            steps.append(dict(a='edit', k=1, op=op, edge=e))
    return dict(meta=dict(data=data), unit=rng.choice(FINE), steps=steps)


def long(rng):
    """Thousands of records, imported and made into a sample path."""
    d = gen.dataset(rng, n=rng.choice([1, 2]), ntraj=rng.choice([1, 2, 3]), lens=rng.choice([(4000, 6000), (9000,), (12000, 13000)]), maxcard=3)
    data = [d]
    s = new_sample(rng, 1, data, 1) if rng.random() < 0.6 else new_json(rng, 1, data, [1])
    return dict(meta=dict(data=data), unit=rng.choice(FINE), steps=[s, dict(a='import', k=1, i=1, header=[]), dict(a='path', k=1), dict(a='build', k=1, first='trajectories')])


def run(c, gens):
    c.model('ImportingMC', cfg=c.n('ImportingMC.cfg', 'ImportingMC_thorough.cfg'), timeout=800,
            expect_actions=('Start', 'Read', 'NextTrajectory', 'EndImport', 'BuildPath'))
    scs = [g(c.rng) for g, k in gens for _ in range(k)]
    traces = c.drive('importing', scs, limit=30, total=c.n(300, 700))
    c.validate('ImportingTrace', traces, batch=120)
