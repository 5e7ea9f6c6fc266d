"""Drives the family score: direct calls and an estimator scoring nodes of edited graphs."""
import math
from drv.util import *


def fix(x):
    """fixed point <<hi, lo>>: x = (hi*10^6 + lo) / 10^9"""
    x = float(x.real if isinstance(x, complex) else x)
    if not math.isfinite(x) or abs(x) > 1e5:
        return [BAD // 1000, 0]
    n = round(x * 10 ** 9)
    return [n // 10 ** 6, n % 10 ** 6]


def hypers(al, ta, k):
    """What is said about the hyperparameters: those with their default value now and then go without saying."""
    kw = dict(tau_xu=ta, alpha_xu=al)
    if k % 2:
        kw = {a: v for a, v in kw.items() if v != dict(tau_xu=0.1, alpha_xu=1)[a]}
    return kw


def run(sc, ev):
    import numpy as np
    meta, unit = sc['meta'], sc['unit']
    ds = meta['data'][0]
    hy = sc['hyper']

    def variant(v):
        ren = dict(zip(ds['cols'], v['names']))
        col = v['order']
        cols = [ds['cols'][j] for j in col]
        tr = [[[r[0]] + [r[1 + j] for j in col] for r in ds['traj'][t]] for t in v['perm']]
        return dict(cols=[ren[c] for c in cols], traj=tr, vars=[[ren[ds['vars'][j][0]], ds['vars'][j][1]] for j in col],
                    edges=[]), ren
    def brief(v, s, es, ren):
        """The score by an estimator that lives for one question, after one that had other data."""
        al, ta = hy[s['h'] - 1]
        x, where = None, 0
        for turn in range(8):
            trajs = ds['traj'] if turn % 2 else sc['decoys'][(len(ev) + turn // 2) % len(sc['decoys'])]
            d = variant(sc['variants'][v])[0]
            if trajs is not ds['traj']:
                d['traj'] = [[[q[0]] + [q[1 + j] for j in sc['variants'][v]['order']] for q in t] for t in trajs]
            sp = sample_path(d, unit)
            e = C('StructureScoreBasedEstimator')(sp, tau_xu=ta, alpha_xu=al)
            g = C('NetworkGraph')(sp.structure)
            g.add_nodes(sp.structure.nodes_labels)
            g.add_edges([tuple(e) for e in es])
            x = e.get_score_from_graph(g, ren[s['node']])
            if turn % 2 and id(sp.trajectories) == where:     # it took the place of the other
                break
            where = id(sp.trajectories)
            del sp, e, g
        return x
    est, graphs, ren = {}, {}, {}
    for i, v in enumerate(sc.get('variants', [])):
        d, ren[i] = variant(v)
        sp = sample_path(d, unit)
        for h, (al, ta) in enumerate(hy):
            est[i, h] = (C('StructureScoreBasedEstimator')(sp, **hypers(al, ta, i)), sp)
    for s in sc['steps']:
        if s['a'] == 'direct':
            cims = [C('ConditionalIntensityMatrix')(state_residence_times=np.array(t, dtype=float) * unit,
                                                    state_transition_matrix=np.array(m, dtype=int)) for t, m in zip(s['T'], s['M'])]
            al, ta = hy[s['h'] - 1]
            arg = np.array(cims)
            r, err = attempt(lambda: C('FamScoreCalculator')().get_fam_score(arg, **hypers(al, ta, len(ev))))
            ev.append(dict(a='direct', h=s['h'], T=s['T'], M=s['M'], err=err, val=[0, 0] if err else fix(r)))
            continue
        v = sc['graphs'][s['g'] - 1]
        if s['g'] not in graphs:
            sp = est[v, 0][1]
            graphs[s['g']] = C('NetworkGraph')(sp.structure)
            graphs[s['g']].add_nodes(sp.structure.nodes_labels)
        g, r = graphs[s['g']], ren[v]
        if s['a'] == 'edit':
            es = [(r[a], r[b]) for a, b in s['edges']]
            if s['op'] == 'add':
                g.add_edges(es)
            else:
                g.remove_edges(es)
            ev.append(dict(a='edit', g=s['g'], op=s['op'], edges=s['edges']))
        else:
            q = est[v, s['h'] - 1][0]
            if sc.get('retune'):            # one estimator, its hyperparameters set before each score
                q = est[v, 0][0]
                q.alpha_xu, q.tau_xu = hy[s['h'] - 1]
            x, err = attempt(lambda: brief(v, s, edges(g.edges), r) if sc.get('decoys') else q.get_score_from_graph(g, r[s['node']]))
            ev.append(dict(a='score', g=s['g'], h=s['h'], node=s['node'], err=err, val=[0, 0] if err else fix(x)))
    return meta
