"""Learns whole networks sequentially and in worker processes, with several estimators on shared sample paths.

Overridden public methods of the estimators log from whatever process they run in to one file (O_APPEND)."""
import copy
import hashlib, inspect, json, os, sys
from drv.util import *


def log(f, rec):
    if f:
        fd = os.open(f, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(rec) + '\n').encode())
        os.close(fd)


def define():
    """The scripted estimators, at module level so that they can be sent to workers."""
    if 'VfCtpc' in globals():
        return
    Base, BaseS = C('StructureConstraintBasedEstimator'), C('StructureScoreBasedEstimator')

    def complete_test(self, *a, **k):
        b = inspect.signature(Base.complete_test).bind(self, *a, **k).arguments
        X, x, S = str(b['test_parent']), str(b['test_child']), sorted(str(s) for s in b['parent_set'])
        v = self.vf
        if 'indep' in v:
            r = [X, x] not in v['indep']
        else:
            h = hashlib.md5(json.dumps([v['salt'], X, x, S]).encode()).digest()
            r = h[0] < 256 * v['p']
        log(v['log'], dict(a='test', node=x, cand=X, set=S, ans=r))
        return r

    def get_score_from_graph(self, graph, node_id, *a, **k):
        super(VfScore, self).get_score_from_graph(graph, node_id, *a, **k)
        ps = {x for x, y in edges(graph.edges) if y == node_id}
        log(self.vf['log'], dict(a='eval', node=str(node_id), set=sorted(ps)))
        if 'table' in self.vf:
            others = [c for c in self.vf['cols'] if c != node_id]
            return float(self.vf['table'][str(node_id)][sum(2 ** others.index(q) for q in ps)])
        return -float(len(ps ^ {x for x, y in self.vf['want'] if y == node_id}))
    for name, base, f in [('VfCtpc', Base, complete_test), ('VfScore', BaseS, get_score_from_graph)]:
        globals()[name] = type(name, (base,), {f.__name__: f, '__module__': __name__, '__qualname__': name})


def shape(sp):
    """The whole sample path as one string."""
    import numpy as np
    t, s = sp.trajectories, sp.structure
    return json.dumps([np.asarray(t.times).tolist(), np.asarray(t.trajectory).tolist(), np.asarray(t.complete_trajectory).tolist(),
                       [str(l) for l in s.nodes_labels], [int(i) for i in s.nodes_indexes], [int(i) for i in s.nodes_values],
                       sorted(edges(s.edges)), int(sp.total_variables_count), bool(sp.has_prior_net_structure)])


def run(sc, ev):
    define()
    meta, ds = sc['meta'], sc['ds']
    cols = ds['cols']
    num = {c: i + 1 for i, c in enumerate(cols)}
    logf = os.path.abspath('pool-%d.log' % os.getpid())
    paths = [sample_path(dict(ds, edges=p['edges']), 1.0, prior=p['has']) for p in sc['paths']]
    ests = []
    for e in sc['ests']:
        known = [(list if e.get('aslists') else tuple)((cols[a - 1], cols[b - 1])) for a, b in e['known']]
        orig = copy.deepcopy(known)
        sp = paths[e['path']]
        kw = {} if e.get('noknown') and not known else dict(known_edges=known)
        k = e['kind']
        if k in ('ctpc', 'ctpc-real'):
            q = (VfCtpc if k == 'ctpc' else C('StructureConstraintBasedEstimator'))(sp, e['al'], e['al'], thumb_threshold=e['thr'], **kw)
        else:
            q = (VfScore if k == 'score' else C('StructureScoreBasedEstimator'))(sp, tau_xu=e['tau'], alpha_xu=e['alpha'], **kw)
        if k in ('ctpc', 'score'):
            q.vf = dict(e['vf'], log=logf if sc.get('emit') else '', cols=cols)
        ests.append((q, k, known, orig))
    before = [shape(p) for p in paths]
    for s in sc['steps']:
        q, k, known, orig = ests[s['est'] - 1]
        e = sc['ests'][s['est'] - 1]
        if os.path.exists(logf):
            os.unlink(logf)
        seed_all(s['seed'])
        kw = dict(s.get('kw', {}))
        kw.update(dict(disable_multiprocessing=True) if s['procs'] == 0 else
                  dict(processes_number=None if s['procs'] < 0 else s['procs']))
        if s.get('explicit') and s['procs'] != 0:
            kw['disable_multiprocessing'] = False
        r, err = attempt(lambda: q.estimate_structure(**kw))
        es = [] if err else edges(r)
        es = [[num.get(a, 0), num.get(b, 0)] for a, b in es]
        emit = sc.get('emit')
        if not emit:
            ev.append(dict(a='learn', group=s.get('group', 0), err=err, edges=es, known=e['known'], fixed='want' in s, want=s.get('want', [])))
            ev.append(dict(a='inputs', same=[shape(p) for p in paths] == before, knownsame=known == orig))
            if err:
                break
            continue
        recs = []
        if os.path.exists(logf):
            with open(logf) as f:
                recs = [json.loads(l) for l in f]
        for x, c in enumerate(cols, 1):
            mine = [w for w in recs if w['node'] == c]
            if emit == 'ctpc':
                ev.append(dict(a='node', x=x))
                ev.extend(dict(a='test', x=x, cand=num.get(w['cand'], 0), set=[num.get(i, 0) for i in w['set']], ans=w['ans']) for w in mine)
                ev.append(dict(a='result', x=x, set=sorted(a for a, b in es if b == x)))
            else:
                others = [o for o in cols if o != c]
                n2 = {o: i + 1 for i, o in enumerate(others)}
                prior = [n2[a] for a, b in orig if b == c]
                p = dict(s['p'], cands=[i for i in n2.values() if i not in prior], prior=prior)
                ev.append(dict(a='node', p=p, score=e['vf']['table'][c]))
                ev.extend(dict(a='eval', set=sorted(n2.get(o, 0) for o in w['set'])) for w in mine)
                end = dict(err=err, foreign=len([1 for a, b in es if b == x and (a == x or a == 0)]),
                           set=sorted(n2[cols[a - 1]] for a, b in es if b == x and a not in (0, x)))
                ev.append(dict(end, a='result'))
        if emit == 'ctpc':
            ev.append(dict(a='whole', err=err, loops=len([1 for a, b in es if a == b]), dups=len(es) - len({tuple(w) for w in es}),
                           foreign=len([1 for a, b in es if 0 in (a, b)])))
    return meta
