"""Drives hill climbing and tabu search of one node: with a scripted score (the public scoring method of the
estimator is overridden and logs every parent set it is asked about) or with the real score, seen from outside."""
from drv.util import *


def data(n, rows):
    cols = ['N%d' % i for i in range(n)]
    return dict(cols=cols, traj=[rows], vars=[[c, 2] for c in cols], edges=[])


def none(x):
    return None if x < 0 else x


def call(est, node, p, form):
    kw = dict(max_parents=none(p['maxp']), iterations_number=p['iters'], patience=none(p['patience']))
    if p['kind'] == 'tabu':
        kw.update(tabu_length=none(p['tlen']), tabu_rules_duration=none(p['tdur']))
    if form == 'optimizer':
        return C('TabuSearch' if p['kind'] == 'tabu' else 'HillClimbing')(node, est, **kw).optimize_structure()
    return est.estimate_parents(node, optimizer=p['kind'], **kw)


def outcome(r, err, cols, node, num):
    es = [] if err else edges(r)
    return dict(err=err, foreign=len([e for e in es if e[1] != node or e[0] not in num]),
                set=sorted(num[a] for a, b in es if b == node and a in num))


def run(sc, ev):
    meta, p = sc['meta'], sc['meta']['p']
    ds = sc['ds']
    cols = [c for c in ds['cols']]
    node = cols[sc['node']]
    others = [c for c in cols if c != node]
    num = {c: i + 1 for i, c in enumerate(others)}
    known = [(others[i - 1], node) for i in p['prior']] + [tuple(e) for e in sc.get('otherknown', [])]
    sp = sample_path(ds, 1.0)
    seed_all(sc['seed'])
    if sc['mode'] == 'scripted':
        table = meta['score']
        base, scale = sc.get('law', (0.0, 1.0))

        class Scripted(C('StructureScoreBasedEstimator')):
            def get_score_from_graph(self, graph, node_id, *a, **k):
                super().get_score_from_graph(graph, node_id, *a, **k)     # whatever the real one prepares in the graph
                S = sorted(num[a] for a, b in edges(graph.edges) if b == node_id)
                ev.append(dict(a='eval', set=S))
                return base + scale * table[sum(2 ** (i - 1) for i in S)]
        est = Scripted(sp, known_edges=known)
        for _ in range(sc.get('runs', 1)):
            n0 = len(ev)
            r, err = attempt(lambda: call(est, node, p, sc['form']))
            seen = len(ev) > n0
            e = outcome(r, err, cols, node, num)
            if seen or err:
                e['a'] = 'result'
                ev.append(e)
    else:
        est = C('StructureScoreBasedEstimator')(sp, tau_xu=sc['tau'], alpha_xu=sc['alpha'], known_edges=known)
        k = len(others)
        val = []
        for m in range(2 ** k):
            g = C('NetworkGraph')(sp.structure)
            g.add_nodes(sp.structure.nodes_labels)
            g.add_edges([(others[i], node) for i in range(k) if m >> i & 1])
            val.append(float(est.get_score_from_graph(g, node)))
        rank = {v: i for i, v in enumerate(sorted(set(val)))}
        meta['score'] = [rank[v] for v in val]
        for _ in range(sc.get('runs', 1)):
            r, err = attempt(lambda: call(est, node, p, sc['form']))
            ev.append(dict(outcome(r, err, cols, node, num), a='outside'))
    return meta
