"""Learns networks back from their own trajectories."""
from drv.sampling import *


def seen_by(frames, net, ps):
    """How often each variable left each state under each configuration, counted on the rows themselves."""
    n, cards = len(net['labels']), net['cards']
    seen = [{tuple(c): [0] * cards[x] for c in combs([cards[p - 1] for p in ps[x]])} for x in range(n)]
    for f in frames:
        xs = list(zip(*[[whole(v) for v in f[l].tolist()] for l in net['labels']]))
        for a, b in zip(xs, xs[1:]):
            for x in range(n):
                if a[x] != b[x] and b[x] >= 0 and a[x] >= 0:
                    seen[x][tuple(a[p - 1] for p in ps[x])][a[x]] += 1
    return seen


def hundredths(v):
    return scaled(float(v) + 0.005, 100)


def run(sc, ev):
    import numpy as np, pandas as pd
    meta = dict(nets=[dict(n=len(N['labels']), cards=N['cards'], parents=parents(len(N['labels']), N['edges']),
                           q=[[dict(comb=c['comb'], m=[[v // 100 for v in r] for r in c['m']]) for c in qx] for qx in N['q']])
                      for N in sc['nets']], seed=sc['seed'])
    sc['meta'] = dict(meta)
    for k, (net, task) in enumerate(zip(sc['nets'], sc['tasks']), 1):
        seed_all(sc['seed'] + k)
        ls = net['labels']
        num = {l: i + 1 for i, l in enumerate(ls)}
        ps = parents(len(ls), net['edges'])
        frames, seen = [], None

        def sample():
            nonlocal seen
            tg, _ = generator(dict(how=task['how'], net=net, seed=sc['seed']))
            while len(frames) < task['most']:
                frames.append(tg.CTBN_Sample(max_tr=task['rows']))
                seen = seen_by(frames, net, ps)
                if len(frames) >= task['least'] and all(v >= task['enough'] for q in seen for c in q.values() for v in c):
                    break
        _, err = attempt(sample)
        ev.append(dict(a='data', k=k, trajs=len(frames), err=err,
                       seen=[[dict(comb=list(c), out=v) for c, v in sorted(q.items())] for q in seen or []]))
        if err:
            return meta
        v, d, cims = objects(net)
        prior = dict(none=None, truth=d, other=pd.DataFrame([[ls[a - 1], ls[b - 1]] for a, b in task['wrong']], columns=['From', 'To']))[task['prior']]

        def path():
            if task['route'] == 'document':
                ex = C('JsonExporter')(v, d, cims)
                for f in frames:
                    ex.add_trajectory(f)
                ex.out_file('back.json')
                im = C('JsonImporter')(file_path='back.json', samples_label='samples', structure_label='dyn.str', variables_label='variables',
                                       time_key='Time', variables_key='Name')
                im.import_data(0)
            else:
                order = [i - 1 for i in task['order']]
                im = C('SampleImporter')(trajectory_list=[f[['Time'] + [ls[i] for i in order]] for f in frames],
                                         variables=v.iloc[order].reset_index(drop=True), prior_net_structure=prior)
                im.import_data()
            sp = C('SamplePath')(im)
            sp.build_trajectories()
            sp.build_structure()
            return sp
        sp, err = attempt(path)
        for l in task['learn']:
            known = [(ls[a - 1], ls[b - 1]) for a, b in l['known']]

            def learn():
                if l['alg'] == 'ctpc':
                    return C('StructureConstraintBasedEstimator')(sp, l['sign'], l['sign'], known_edges=known, thumb_threshold=l['thumb']).estimate_structure(
                        disable_multiprocessing=l['alone'])
                kw = dict(iterations_number=l['iters'], patience=None, optimizer=l['alg'], disable_multiprocessing=l['alone'])
                return C('StructureScoreBasedEstimator')(sp, known_edges=known).estimate_structure(**kw)
            r, e1 = (None, err) if err else attempt(learn)
            ev.append(dict(a='learn', k=k, alg=l['alg'], known=l['known'], err=e1,
                           edges=[[num.get(a, 0), num.get(b, 0)] for a, b in edges(r or [])]))
        if task['fit']:
            def fit():
                names = list(sp.structure.nodes_labels)
                st = C('Structure')(names, np.array([sp.structure.get_node_indx(l) for l in names]), np.array([sp.structure.get_states_number(l) for l in names]),
                                    [(ls[a - 1], ls[b - 1]) for a, b in net['edges']], len(ls))
                out = []
                for x, l in enumerate(ls):
                    g = C('NetworkGraph')(st)
                    g.fast_init(l)
                    pe = C('ParametersEstimator')(sp.trajectories, g)
                    pe.fast_init(l)
                    so = pe.compute_parameters_for_node(l)
                    inorder = sorted(ps[x], key=lambda p: names.index(ls[p - 1]))       # configurations list the parents in the order of the data
                    out.append([dict(comb=[whole(row[inorder.index(p)]) for p in ps[x]], c=[[hundredths(z) for z in r] for r in c.cim.tolist()],
                                     m=[[whole(z) for z in r] for r in c.state_transition_matrix.tolist()])
                                for c, row in zip(list(so.actual_cims), so.p_combs.tolist())])
                return out
            r, e2 = (None, err) if err else attempt(fit)
            ev.append(dict(a='fit', k=k, err=e2, fit=r or []))
    ev.append(dict(a='end'))
    return meta
