import gen


def scenario(rng, b, large=False):
    """A behaviour over five nodes; a large structure has some more, which the behaviour leaves alone (but for what concerns all)."""
    n = 5
    ls = gen.labels(rng, n, 0.25)
    every = list(ls)
    for k in range(rng.randint(13, 17) if large else 0):
        every.insert(rng.randint(0, len(every)), 'n%d' % k)
    n = len(every)
    form = rng.choice(['path', 'direct', 'direct'])
    if form == 'path':
        idx, total = list(range(n)), n
    else:
        total = n + rng.choice([0, 0, 1, 3])
        idx = sorted(rng.sample(range(total), n))
    nodes = [dict(l=l, i=i, c=rng.randint(2, 5)) for l, i in zip(every, idx)]

    def lab(es):
        return [[ls[a - 1], ls[c - 1]] for a, c in es]
    more = [[a, c] for a in every for c in every if a != c and not (a in ls and c in ls) and rng.random() < 0.1]
    ops = [dict(op=o['op'], edges=lab(o['edges']), x=ls[o['x'] - 1] if o['x'] else '') for o in b[1:]]
    if large:
        ops = ops[:14]
        if rng.random() < 0.7:              # before all edges are removed
            ops = ops[:max(1, next((k for k, o in enumerate(ops) if o['op'] == 'sclean'), 14))]
    return dict(meta=dict(nodes=nodes, edges=lab(b[0]['edges']) + more, total=total), form=form, ops=ops)


def run(c):
    c.model('GraphMC', cfg=c.n('GraphMC.cfg', 'GraphMC_thorough.cfg'), workers=8,
            expect_actions=('StructAdd', 'StructDel', 'StructClean', 'StructNode', 'GraphNew', 'GraphAdd', 'GraphDel', 'GraphNode', 'GraphInit'))
    bs = c.behaviours('GraphMC', 'GraphSim.cfg', c.n(250, 4000), 30)
    scs = [scenario(c.rng, b) for b in bs] + [scenario(c.rng, b, True) for b in c.rng.sample(bs, c.n(24, 200))]
    c.rng.shuffle(scs)
    c.validate('GraphTrace', c.drive('graph', scs, limit=30), batch=40)
