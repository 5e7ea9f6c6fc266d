import gen
from checks import sampling


def scenario(rng, stats=0):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]) if not stats else rng.choice([2, 3])
    how = rng.choice(['objects', 'objects', 'generated'])
    sc = dict(how=how, seed=rng.randrange(10 ** 6), meta={}, thirds=rng.random() < 0.3 and not stats, stats=stats)
    if how == 'generated':
        sc['net'] = dict(labels=gen.labels(rng, n), cards=[rng.choice([2, 3, 4] if not stats else [2, 3]) for _ in range(n)])
        sc['draw'] = dict(density=rng.choice([0, 0.3, 0.6, 1]) if n < 4 else 0.3, lo=1, hi=rng.choice([2, 9]))
    else:
        mc = rng.choice([3, 4, 12]) if n < 4 and not stats else 3
        sc['net'] = sampling.network(rng, n, maxcard=mc, maxconf=150 if mc == 12 else 24, rates=(2500, 10000, 40000))
        if rng.random() < 0.2 and not sc['thirds']:
            sc['ints'] = True
            sampling.rounded(sc['net'])
    own = rng.random() < 0.25 and not stats
    if own:
        sc['unit'] = rng.choice([2.0 ** -40, 2.0 ** -30, 2.0 ** -4, 1.0])
    st = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        st.append(dict(a='add', multi=rng.random() < 0.1, rows=[rng.choice([1, 2, 5, 12]) for _ in range(rng.choice([1, 1, 2, 3]))]))
        if rng.random() < 0.2:
            st.append(dict(a='other'))
        if rng.random() < 0.3 or st[-1]['a'] == 'other':
            st.append(dict(a='out', name='net.json'))
    if rng.random() < 0.05 and not stats:
        st.append(dict(a='add', multi=False, rows=[1] * rng.choice([9, 33, 70])))
    if own:
        for s in st:
            if s['a'] == 'add':
                s.update(rows=[1], multi=False, own=[gen.trajectory(rng, sc['net']['cards'], k if k < 12 else rng.choice([12, 40, 70]), one=True, zero=rng.choice([0.1, 0.4]), maxdt=rng.choice([3, 2 ** 24]), t0=rng.choice([0, 2 ** 20 + 1])) for k in s['rows']])
    st += [dict(a='out', name=rng.choice(['net.json', 'b.json']))]
    if rng.random() < 0.3:
        st.append(dict(a='reorder', seed=rng.randrange(10 ** 6)))
    if rng.random() < 0.25:
        ks = [['samples', 'trajectories', 'data'], ['dyn.str', 'edges'], ['variables', 'nodes'], ['dyn.cims', 'cims'], ['Time', 't', 'Time'], ['Name', 'Name', 'Label', 'id']]
        keys = dict(zip(['samples', 'structure', 'variables', 'cims', 'time', 'name'], map(rng.choice, ks)))
        if keys['time'] not in sc['net']['labels']:
            st.append(dict(a='relabel', keys=keys))
    st.append(dict(a='import'))
    if rng.random() < 0.7:
        st.append(dict(a='twin', rows=rng.choice([10, 60]), seed=rng.randrange(10 ** 6)))
    sc['steps'] = st
    return sc


def run(c):
    c.model('ExchangeMC', cfg=c.n('ExchangeMC.cfg', 'ExchangeMC_thorough.cfg'), workers=8, expect_actions=('Write', 'Shuffle'))
    scs = [scenario(c.rng) for _ in range(c.n(260, 4000))] + [scenario(c.rng, c.n(1000, 2500)) for _ in range(c.n(16, 120))]
    tr = c.drive('exchange', scs, limit=60)
    second = [t['meta'].pop('second') for t in tr if t and t['meta'].get('second')]
    c.validate('ExchangeTrace', tr, batch=50)
    c.validate('SamplingTrace', second, batch=8)
