"""Learns structures in several ways and looks at every view of the result."""
import inspect, json, os
from drv.util import *


def run(sc, ev):
    meta, ds = sc['meta'], sc['ds']
    cols = ds['cols']
    num = {c: i + 1 for i, c in enumerate(cols)}
    sp = sample_path(ds, 1.0, prior=sc['hasprior'])
    seed_all(sc['seed'])
    BaseC, BaseS = C('StructureConstraintBasedEstimator'), C('StructureScoreBasedEstimator')
    want = [set()]

    class Ctpc(BaseC):
        def complete_test(self, *a, **k):
            b = inspect.signature(BaseC.complete_test).bind(self, *a, **k).arguments
            return (str(b['test_parent']), str(b['test_child'])) not in want[0]

    class Score(BaseS):
        def get_score_from_graph(self, graph, node_id, *a, **k):
            super().get_score_from_graph(graph, node_id, *a, **k)
            ps = {x for x, y in edges(graph.edges) if y == node_id}
            return -float(len(ps ^ {x for x, y in want[0] if y == node_id}))
    ests = []
    for kind in sc['kinds']:
        ests.append(Ctpc(sp, 0.1, 0.1) if kind == 'ctpc' else BaseC(sp, 0.1, 0.1, [], 1) if kind == 'real' else Score(sp))

    def nums(es):
        return [[num.get(a, 0), num.get(b, 0)] for a, b in edges(es)]
    for i, s in enumerate(sc['steps']):
        k = s['k']
        q = ests[k - 1]
        e = dict(a=s['a'], k=k)
        if s['a'] == 'learn':
            want[0] = {(cols[a - 1], cols[b - 1]) for a, b in s['want']}
            kw = dict(disable_multiprocessing=True)
            if sc['kinds'][k - 1] in ('hill', 'tabu'):
                kw.update(optimizer=sc['kinds'][k - 1], iterations_number=s['iters'], patience=None)
            r, e['err'] = attempt(lambda: q.estimate_structure(**kw))
            e['edges'] = [] if e['err'] else nums(r)
            e['foreign'] = len([1 for p in e['edges'] if 0 in p])
        elif s['a'] == 'adjacency':
            r, e['err'] = attempt(lambda: [[bool(v) for v in row] for row in q.adjacency_matrix()])
            e['m'] = r or []
        elif s['a'] == 'saved':
            f = 'r%d.json' % (i % 2)

            def save():
                q.save_results(f)
                with open(f) as h:
                    return json.load(h)
            d, e['err'] = attempt(save)
            if not e['err']:
                e['nodes'] = [num.get(str(v['id']), 0) for v in d['nodes']]
                e['links'] = nums([(v['source'], v['target']) for v in d['links']])
                e['directed'] = bool(d.get('directed', False))
        else:
            r, e['err'] = attempt(lambda: nums(list(q.spurious_edges())))
            e['edges'] = r or []
        ev.append(e)
        if e['err']:
            break
    return meta
