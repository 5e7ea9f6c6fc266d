"""Builds generators of trajectories in every public way and samples from them."""
import itertools, json, os
from drv.util import *
from drv.netgen import matrix, select


def combs(cards):
    """All combinations, the first parent fastest, as the package lists them."""
    return [list(reversed(c)) for c in itertools.product(*[range(k) for k in reversed(cards)])]


def parents(n, es):
    return [sorted(a for a, b in es if b == x) for x in range(1, n + 1)]


def number(m, ints):
    """The intensities m / 10000: whole numbers where they can be, if wanted."""
    import numpy as np
    return m // 10000 if ints and (m % 10000 == 0).all() else m / 10000


def objects(net, ints=False):
    """variables, dyn_str, dyn_cims of a network."""
    import pandas as pd, numpy as np
    ls, cards, ps = net['labels'], net['cards'], parents(len(net['labels']), net['edges'])
    v = pd.DataFrame([[l, c] for l, c in zip(ls, cards)], columns=['Name', 'Value'])
    d = pd.DataFrame([[ls[a - 1], ls[b - 1]] for a, b in net['edges']], columns=['From', 'To'])
    cims = {}
    for x in range(1, len(ls) + 1):
        q = {tuple(c['comb']): number(np.array(c['m']), ints) for c in net['q'][x - 1]}
        cs = combs([cards[p - 1] for p in ps[x - 1]])
        g = C('NetworkGraph').build_p_comb_structure_for_a_node
        pc = g([cards[p - 1] for p in ps[x - 1]])
        ms = [C('ConditionalIntensityMatrix')(cim=q[tuple(int(v) for v in c)].copy()) for c in pc]
        cims[ls[x - 1]] = C('SetOfCims')(node_id=ls[x - 1], parents_states_number=[cards[p - 1] for p in ps[x - 1]],
                                        node_states_number=cards[x - 1], p_combs=pc, cims=np.array(ms))
    return v, d, cims


def document(net, rnd, name):
    ls, cards, ps = net['labels'], net['cards'], parents(len(net['labels']), net['edges'])
    dc = {}
    plain, mixed = rnd.random() < 0.5, rnd.random() < 0.4
    for x in range(1, len(ls) + 1):
        items = list(net['q'][x - 1])
        rnd.shuffle(items)

        def row(r):
            """Entries in any order, whole numbers as such."""
            es = [(str(j), v // 10000 if v % 10000 == 0 and plain else v / 10000) for j, v in enumerate(r)]
            if mixed:
                rnd.shuffle(es)
            return dict(es)
        dc[ls[x - 1]] = {(','.join('%s=%d' % (ls[p - 1], v) for p, v in zip(ps[x - 1], c['comb'])) or ls[x - 1]):
                         [row(r) for r in c['m']] for c in items}
    doc = [{'dyn.str': [{'From': ls[a - 1], 'To': ls[b - 1]} for a, b in net['edges']],
            'variables': [{'Name': l, 'Value': c} for l, c in zip(ls, cards)], 'dyn.cims': dc,
            'samples': [[dict([('Time', 0.0)] + [(l, 0) for l in ls]), dict([('Time', 1.0)] + [(l, -1) for l in ls])]]}]
    with open(name, 'w') as f:
        json.dump(doc, f)


def importer(name):
    im = C('JsonImporter')(file_path=name, samples_label='samples', structure_label='dyn.str', variables_label='variables',
                           cims_label='dyn.cims', time_key='Time', variables_key='Name')
    im.import_data(0)
    return im


def generated(net, s):
    """A network drawn by the network generator: fills edges and q."""
    ls, cards = net['labels'], net['cards']
    num = {l: i + 1 for i, l in enumerate(ls)}
    ng = C('NetworkGenerator')(list(ls), list(cards))
    for _ in range(200):
        ng.generate_graph(s['density'])
        net['edges'] = [[num[a], num[b]] for a, b in edges(ng.graph.edges)]
        if all(prod(cards[p - 1] for p in ps) <= 30 for ps in parents(len(ls), net['edges'])):
            break
    ng.generate_cims(s['lo'], s['hi'])
    ps = parents(len(ls), net['edges'])
    net['q'] = [[dict(comb=c, m=matrix(select(ng.cims[l], c))) for c in combs([cards[p - 1] for p in ps[x]])] for x, l in enumerate(ls)]
    return ng


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def generator(sc, T=None):
    """(TrajectoryGenerator, network)"""
    net, how = sc['net'], sc['how']
    T = T or C('TrajectoryGenerator')
    if how == 'generated':
        ng = generated(net, sc['draw'])
        return T(variables=ng.variables, dyn_str=ng.dyn_str, dyn_cims=ng.cims), net
    if how == 'import':
        document(net, random.Random(sc['seed']), 'net.json')
        return T(importer('net.json')), net
    v, d, c = objects(net, sc.get('ints'))
    return T(variables=v, dyn_str=d, dyn_cims=c), net


def rows(frame, ls):
    """(columns are right, rows as events)"""
    cols = [str(c) for c in frame.columns]
    ok = len(cols) == len(ls) + 1 and set(cols) == {'Time'} | set(ls)
    if not ok:
        return False, []
    out = []
    for i in range(len(frame)):
        r = frame.iloc[i]
        out.append(dict(a='row', t=ticks(r['Time'], 1e-4), x=[whole(r[l]) for l in ls]))
    return True, out


def fast_rows(frame, ls):
    cols = [str(c) for c in frame.columns]
    if not (len(cols) == len(ls) + 1 and set(cols) == {'Time'} | set(ls)):
        return False, []
    ts = [ticks(v, 1e-4) for v in frame['Time'].tolist()]
    xs = list(zip(*[[whole(v) for v in frame[l].tolist()] for l in ls]))
    return True, [dict(a='row', t=t, x=list(x)) for t, x in zip(ts, xs)]


def run(sc, ev):
    seed_all(sc['seed'])
    tg, net = generator(sc)
    meta = dict(n=len(net['labels']), cards=net['cards'], parents=parents(len(net['labels']), net['edges']), q=net['q'],
                stats=sc['stats'], how=sc['how'], labels=net['labels'], edges=net['edges'], seed=sc['seed'])
    sc['meta'] = dict(meta)
    for b in sc['runs']:
        kw = {}
        if b['maxtr'] >= 0:
            kw['max_tr'] = b['maxtr']
        if b['tend'] >= 0:
            kw['t_end'] = b['tend'] / 10000
        f, err = attempt(lambda: tg.CTBN_Sample(**kw))
        ok, rs = (True, []) if err else fast_rows(f, net['labels'])
        ev.append(dict(a='traj', maxtr=b['maxtr'], tend=b['tend'], err=err, cols=ok))
        ev.extend(rs)
        ev.append(dict(a='end'))
    if sc['stats']:
        ev.append(dict(a='judge'))
    return meta
