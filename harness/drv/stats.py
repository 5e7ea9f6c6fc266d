"""Drives parameter estimation: scenario = meta.data[0] + steps over shared graphs."""
from drv.util import *


def look(sof, e, unit):
    cs = list(sof.actual_cims)
    e['count'] = whole(sof.get_cims_number())
    e['combs'] = [[whole(v) for v in r] for r in sof.p_combs.tolist()]
    e['T'] = [[ticks(t, unit) for t in list(c.state_residence_times)] for c in cs]
    e['M'] = [[[whole(v) for v in r] for r in c.state_transition_matrix.tolist()] for c in cs]
    e['C'] = [[[rat(v) for v in r] for r in c.cim.tolist()] for c in cs]


def find(sof, got):
    """numbers (1-based) of the returned matrices in the node's list"""
    ids = {id(c): i + 1 for i, c in enumerate(list(sof.actual_cims))}
    keys = {repr(c.cim.tolist()): i + 1 for i, c in enumerate(list(sof.actual_cims))}
    return [ids.get(id(c)) or keys.get(repr(c.cim.tolist()), 0) for c in list(got)]


def run(sc, ev):
    import numpy as np
    meta, unit = sc['meta'], sc['meta']['un'] / sc['meta']['ud']
    ds = meta['data'][0]
    sp = sample_path(ds, unit)
    before = (sp.trajectories.times.copy(), sp.trajectories.complete_trajectory.copy())
    graphs, last = {}, None
    for s in sc['steps']:
        if s['a'] == 'estimate':
            node, ps = s['node'], s['parents']
            e = dict(a='estimate', form=s['form'], node=node, parents=ps)

            def f():
                if s['form'] == 'sub':          # a structure of the node and its parents only
                    st = sp.structure
                    keep = [l for l in st.nodes_labels if l == node or l in ps]
                    sub = C('Structure')(keep, np.array([st.get_node_indx(l) for l in keep]),
                                         np.array([st.get_states_number(l) for l in keep]),
                                         [(p, node) for p in ps], len(ds['cols']))
                    g = C('NetworkGraph')(sub)
                elif s['form'] == 'shared':     # one graph, edited between estimations
                    g = graphs.setdefault(s['g'], C('NetworkGraph')(sp.structure))
                    g.add_nodes(sp.structure.nodes_labels)
                    now = g.get_parents_by_id(node)
                    g.remove_edges([(p, node) for p in now if p not in ps])
                    g.add_edges([(p, node) for p in ps if p not in now])
                else:                           # the prior structure of the sample path
                    g = graphs.setdefault('prior', C('NetworkGraph')(sp.structure))
                g.fast_init(node)
                pe = C('ParametersEstimator')(sp.trajectories, g)
                pe.fast_init(node)
                return pe.compute_parameters_for_node(node)
            last, e['err'] = attempt(f)
            if not e['err']:
                look(last, e, unit)
                combs = e['combs']
            ev.append(e)
            if e['err']:
                return meta
        elif s['a'] == 'direct':
            T = [np.array([t * unit for t in r], dtype=float) for r in s['T']]
            Ms = [np.array(m, dtype=int) for m in s['M']]
            e = dict(a='direct', T0=s['T'], M0=s['M'])

            def f():
                if s['form'] == 'cim':
                    out = []
                    for t, m in zip(T, Ms):
                        c = C('ConditionalIntensityMatrix')(state_residence_times=t, state_transition_matrix=m)
                        c.compute_cim_coefficients()
                        out.append(c)
                    return out
                sof = C('SetOfCims')('X', s['pcards'], len(s['T'][0]), np.array(s['combs']))
                sof.build_cims(np.array(T), np.array(Ms))
                return list(sof.actual_cims)
            cs, e['err'] = attempt(f)
            if not e['err']:
                e['T'] = [[ticks(t, unit) for t in list(c.state_residence_times)] for c in cs]
                e['M'] = [[[whole(v) for v in r] for r in c.state_transition_matrix.tolist()] for c in cs]
                e['C'] = [[[rat(v) for v in r] for r in c.cim.tolist()] for c in cs]
            ev.append(e)
        elif s['a'] == 'combs':
            r, err = attempt(lambda: C('NetworkGraph').build_p_comb_structure_for_a_node(s['cards']))
            e = dict(a='combs', cards=s['cards'], err=err)
            if not err:
                e['combs'] = combs = [[whole(v) for v in x] for x in r.tolist()]
                cims = np.array([C('ConditionalIntensityMatrix')(cim=np.array([[-1.0 - i, 1.0 + i], [2.0, -2.0]]))
                                 for i in range(len(combs))])
                last = C('SetOfCims')('X', s['cards'], 2, r, cims)
            ev.append(e)
            if err:
                return meta
        elif s['a'] == 'filter' and len(combs[0]) >= 2:
            mask = [bool(b) for b in (s['mask'] * 9)[:len(combs[0])]]
            row = combs[s['row'] % len(combs)]
            comb = [v for v, b in zip(row, mask) if b]
            arg = comb if s['aslist'] else np.array(comb, dtype=int)
            r, err = attempt(lambda: last.filter_cims_with_mask(np.array(mask), arg))
            ev.append(dict(a='filter', combs=combs, mask=mask, comb=comb, err=err, got=[] if err else find(last, r)))
    same = bool((before[0] == sp.trajectories.times).all() and (before[1] == sp.trajectories.complete_trajectory).all())
    ev.append(dict(a='data', same=same))
    return meta
