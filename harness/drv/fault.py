"""Operations that fail, between the same operations that do not."""
import hashlib, os
from drv import pool, multi
from drv.sampling import *
from drv.repro import text, values

MAIN = os.getpid()


DEEP = [None]                        # a fault inside the estimation of parameters, whoever asks for it


class Fault(Exception):
    pass


def digest(x):
    return hashlib.sha1(json.dumps(text(x)).encode()).hexdigest()


def strike(self, node):
    """Called by every test and score; fails as planned."""
    fall(getattr(self, 'vf_fault', None), node)


def fall(f, node):
    if not f or f['node'] != str(node):
        return
    f['seen'] = f.get('seen', 0) + 1
    if f['seen'] != f['after']:
        return
    open('struck', 'w').close()
    if f['how'] == 'exit' and os.getpid() != f['main']:
        os._exit(3)
    if f['how'] == 'interrupt':
        raise KeyboardInterrupt()
    if f['how'] == 'memory':
        raise MemoryError()
    raise Fault('planned')


def define():
    pool.define()
    multi.define()
    if 'FtCtpc' in globals():
        return
    Base, BaseS = C('StructureConstraintBasedEstimator'), C('StructureScoreBasedEstimator')

    PE = C('ParametersEstimator')
    estimate = PE.compute_parameters_for_node

    def compute_parameters_for_node(self, node_id, *a, **k):
        early = DEEP[0] and DEEP[0]['deep'] == 1
        if early:
            fall(DEEP[0], node_id)
        r = estimate(self, node_id, *a, **k)
        if not early:
            fall(DEEP[0], node_id)
        return r
    PE.compute_parameters_for_node = compute_parameters_for_node

    def complete_test(self, *a, **k):
        b = inspect.signature(Base.complete_test).bind(self, *a, **k).arguments
        r = super(FtCtpcReal, self).complete_test(*a, **k)
        strike(self, b['test_child'])
        return r

    def scripted_test(self, *a, **k):
        b = inspect.signature(Base.complete_test).bind(self, *a, **k).arguments
        strike(self, b['test_child'])
        return pool.VfCtpc.complete_test(self, *a, **k)

    def score(self, graph, node_id, *a, **k):
        r = pool.VfScore.get_score_from_graph(self, graph, node_id, *a, **k)
        strike(self, node_id)
        return r
    import inspect
    for name, base, f, m in [('FtCtpcReal', Base, complete_test, 'complete_test'), ('FtCtpc', pool.VfCtpc, scripted_test, 'complete_test'),
                             ('FtScore', pool.VfScore, score, 'get_score_from_graph')]:
        globals()[name] = type(name, (base,), {m: f, '__module__': __name__, '__qualname__': name})


def caught(f):
    try:
        return f(), ''
    except BaseException as x:
        if type(x).__name__ == 'Hang':
            raise
        return None, type(x).__name__


def spoil(doc, how, cols):
    """An entry of a document that can not be imported."""
    if how in doc:
        del doc[how]
    elif how == 'empty':
        doc['samples'] = []
    elif how == 'time':
        for r in doc['samples'][-1]:
            del r['Time']
    elif how == 'text':
        doc['samples'][-1][-1][cols[-1]] = 'x'


def run(sc, ev):
    import pandas as pd, numpy as np
    define()
    ds = sc['ds']
    cols = ds['cols']
    num = {c: i + 1 for i, c in enumerate(cols)}
    pairs = lambda es: sorted([num.get(a, 0), num.get(b, 0)] for a, b in edges(es))
    meta = dict(n=len(cols), prior=[[num[a], num[b]] for a, b in ds['edges']], ests=len(sc['ests']))
    sc['meta'] = dict(meta)
    sp = sample_path(ds, 1.0, prior=bool(ds['edges']) or sc['has'])
    ests, knowns = [], []
    for e in sc['ests']:
        known = [(cols[a - 1], cols[b - 1]) for a, b in e['known']]
        k = e['kind']
        q = dict(real=FtCtpcReal, ctpc=FtCtpc)[k](sp, e['al'], e['al'], known_edges=known, thumb_threshold=e['thr']) if k != 'score' else FtScore(sp, known_edges=known)
        if k != 'real':
            q.vf = dict(e['vf'], log='', cols=cols)
        ests.append(q)
    n = sc['gen']
    ng = C('NetworkGenerator')(list(n['labels']), list(n['cards']))
    seed_all(n['seed'])
    ng.generate_graph(n['density'])
    ng.generate_cims(1, 5)
    ex = C('JsonExporter')(ng.variables, ng.dyn_str, ng.cims)
    tg = multi.FtTraj(variables=ng.variables, dyn_str=ng.dyn_str, dyn_cims=ng.cims)
    ex.add_trajectory(tg.CTBN_Sample(max_tr=5))
    odd = C('JsonExporter')(ng.variables, ng.dyn_str, ng.cims)
    strange = tg.CTBN_Sample(max_tr=2).astype(object)
    strange.iloc[-1, -1] = object()
    odd.add_trajectory(strange)
    with open('two.json', 'w') as f:
        json.dump([dict(samples=[[dict(Time=float(r[0]), **{c: v for c, v in zip(cols, r[1:])}) for r in t] for t in ds['traj']], edges=[dict(From=a, To=b) for a, b in ds['edges']],
                        variables=[dict(Name=v[0], Value=v[1]) for v in (ds['vars'] if k == 0 else ds['vars'][::-1])]) for k in range(2)], f)
    im = C('JsonImporter')('two.json', 'samples', 'edges', 'variables', 'Time', 'Name')
    third = [dict(samples=[[dict(Time=2.0 * r[0] + 1, **{c: v for c, v in zip(cols, r[1:])}) for r in t] for t in ds['traj'][::-1]],
                  edges=[dict(From=b, To=a) for a, b in ds['edges']], variables=[dict(Name=v[0], Value=v[1] + 1) for v in ds['vars']]) for _ in range(3)]
    spoil(third[2], sc['spoil'], cols)
    with open('three.json', 'w') as f:
        json.dump([json.load(open('two.json'))[0]] + third[1:], f)
    frames = [frame(cols, t, 1.0, dtype=int) for t in ds['traj']]
    for i, x in enumerate(frames):
        x['a note'] = 'n%d' % i
    readers = [C('JsonImporter')('three.json', 'samples', 'edges', 'variables', 'Time', 'Name'),
               C('SampleImporter')(trajectory_list=frames, variables=pd.DataFrame(ds['vars'], columns=['Name', 'Value']),
                                   prior_net_structure=pd.DataFrame([tuple(e) for e in ds['edges']], columns=['From', 'To']))]

    def held(r):
        seen = lambda t: None if t is None else t.values.tolist() if hasattr(t, 'values') else list(t)
        return [seen(r.concatenated_samples), r.sorter and list(r.sorter), seen(r.variables), seen(r.structure), r.dataset_id()]
    other = sample_path(dict(ds, edges=[]), 1.0)
    st = other.structure
    ga = C('NetworkGraph')(st)
    ga.add_nodes(st.nodes_labels)

    def read(f):
        with open(f) as h:
            return h.read()

    def path_of(i):
        im.import_data(i)
        p = C('SamplePath')(im)
        p.build_trajectories()
        p.build_structure()
        return pool.shape(p)

    def imported(i):
        im.import_data(i)
        return [im.concatenated_samples.values.tolist(), list(im.sorter), im.variables.values.tolist(), im.structure.values.tolist()]

    def out(where):
        ex.out_file(where)
        return read(where)

    def spoiled(where):
        """An export that fails leaves the document that was there."""
        ex.out_file(where)
        r, err = caught(lambda: odd.out_file(where))
        return read(where) if err else None

    def several(s):
        tg.vf_fault = s.get('fault')
        try:
            return len(list(tg.multi_trajectory(max_trs=s['maxtrs'])))
        finally:
            tg.vf_fault = None

    def saved(k, where):
        ests[k - 1].save_results(where)
        return sorted(json.dumps(x, sort_keys=True) for x in json.loads(read(where))['links'])
    OPS = dict(
        imported=lambda s: imported(s['i']), pathof=lambda s: path_of(s['i']),
        spoiled=lambda s: spoiled(s['name']), several=several,
        out=lambda s: out(s['name']), network=lambda s: [sorted(edges(ng.graph.edges)), ng.variables.values.tolist(), sorted(edges(ng.dyn_str.values.tolist())),
                                                         {l: [m.cim.tolist() for m in q.actual_cims] for l, q in ng.cims.items()}],
        cims=lambda s: ng.generate_cims(s['lo'], s['hi']),
        generate=lambda s: ng.generate_graph(s['density'], True),
        structure=lambda s: [list(st.nodes_labels), [int(i) for i in st.nodes_indexes], [int(i) for i in st.nodes_values], edges(st.edges), sorted(edges(ga.edges)), list(ga.nodes)],
        removenode=lambda s: st.remove_node(s['node']), removegraph=lambda s: ga.remove_node(s['node']), removeedge=lambda s: st.remove_edge((cols[0], 'no such')),
        lookup=lambda s: st.get_node_indx(s['node']), states=lambda s: st.get_states_number(s['node']),
        saved=lambda s: saved(s['est'], s['name']),
        known=lambda s: C('StructureScoreBasedEstimator')(sp, known_edges=[(cols[0], s['node'])]) and 0,
        sample=lambda s: (seed_all(s['seed']), values(tg.CTBN_Sample(max_tr=s['rows'])))[1])
    for s in sc['steps']:
        if s['a'] == 'learn':
            q = ests[s['est'] - 1]
            seed_all(s['seed'])
            kw = dict(s.get('kw', {}))
            kw.update(dict(disable_multiprocessing=True) if s['procs'] == 0 else dict(processes_number=s['procs']))
            if s.get('fault'):
                f = dict(s['fault'], node=cols[s['fault']['node'] - 1], main=MAIN)
                if s['fault']['deep']:
                    DEEP[0] = f
                else:
                    q.vf_fault = f
            r, err = caught(lambda: q.estimate_structure(**kw))
            q.vf_fault = DEEP[0] = None
            must = 'fail' if os.path.exists('struck') else 'any' if s.get('odd') else 'ok'
            if os.path.exists('struck'):
                os.unlink('struck')
            ev.append(dict(a='learn', est=s['est'], key=s['key'], must=must, err=err, edges=[] if err else pairs(r)))
        elif s['a'] == 'load':
            r = readers[s['i'] - 1]
            _, err = caught(lambda: r.import_data(s['arg'] if s['i'] == 1 else list(s['arg'])))
            ev.append(dict(a='load', i=s['i'], what=s['what'], must=s['must'], err=err))
        elif s['a'] == 'held':
            ev.append(dict(a='held', i=s['i'], out=digest(held(readers[s['i'] - 1]))))
        elif s['a'] == 'look':
            m = np.asarray(ests[s['est'] - 1].adjacency_matrix()).tolist()
            ev.append(dict(a='adj', est=s['est'], edges=[[i + 1, j + 1] for i, r in enumerate(m) for j, v in enumerate(r) if v]))
            z = json.loads(pool.shape(sp))
            ev.append(dict(a='path', edges=pairs(sp.structure.edges), rest=digest(z[:6] + z[7:])))
        else:
            r, err = caught(lambda: OPS[s['a']](s))
            must = s['must']
            if os.path.exists('struck'):
                os.unlink('struck')
                must = 'fail'
            elif s['a'] == 'several':
                must = 'ok'
            if s['a'] == 'spoiled' and not err and r is None:
                continue                              # it was written after all
            ev.append(dict(a='op', key=s['key'], must=must, err=err, out='' if err else digest(r)))
    return meta
