"""Drives the network generator: graphs, parameters, exported frames."""
from drv.util import *
import itertools


def matrix(m):
    import numpy as np
    return [[ticks(v, 1e-4) for v in row] for row in np.asarray(m).tolist()]


def select(sof, comb):
    """The matrix of one combination of parent states, selected as a user would."""
    import numpy as np
    r = sof.filter_cims_with_mask(np.array([True] * len(comb)), list(comb))
    if len(comb) == 1:
        return r[comb[0]].cim
    if len(r) != 1:
        raise Observed('%d matrices for a full configuration' % len(r))
    return r[0].cim


def graph(ng, num, s):
    d = s['num'] / s['den']
    if d in (0, 1) and s.get('asint'):
        d = int(d)
    r, err = attempt(lambda: ng.generate_graph(d, True) if s['fixed'] else ng.generate_graph(d))
    return err


def shown(ng, num):
    g = ng.graph
    return [num.get(str(n), 0) for n in g.nodes], [[num.get(a, 0), num.get(b, 0)] for a, b in edges(g.edges)]


def run(sc, ev):
    meta = sc['meta']
    ls, cards = list(sc['labels']), list(meta['cards'])
    num = {l: i + 1 for i, l in enumerate(ls)}
    seed_all(sc['seed'])
    ng = C('NetworkGenerator')(ls, cards)
    before = []
    for s in sc['steps']:
        e = dict(a=s['a'])
        if s['a'] == 'graph':
            e.update(num=s['num'], den=s['den'], fixed=s['fixed'], err=graph(ng, num, s), nodes=[], edges=[])
            if not e['err']:
                e['nodes'], e['edges'] = shown(ng, num)
        elif s['a'] == 'frames':
            v, d = ng.variables, ng.dyn_str
            e['vars'] = [[num.get(str(a), 0), whole(b)] for a, b in zip(v['Name'], v['Value'])]
            e['edges'] = [[num.get(str(a), 0), num.get(str(b), 0)] for a, b in zip(d['From'], d['To'])]
        elif s['a'] == 'early':
            r, err = attempt(lambda: ng.generate_cims(s['lo'], s['hi']))
            e['none'] = not err and (ng.cims is None or len(ng.cims) == 0)
        elif s['a'] == 'cims':
            r, e['err'] = attempt(lambda: ng.generate_cims(s['lo'] / 10000, s['hi'] / 10000))
            e.update(lo=s['lo'], hi=s['hi'], nodes=[], before=before)
            if not e['err']:
                if sorted(ng.cims) != sorted(ls):
                    e['nodes'] = []
                else:
                    for l in ls:
                        so = ng.cims[l]
                        combs = [[int(v) for v in c] for c in so.p_combs]
                        if len(combs) != len(so.actual_cims):
                            raise Observed('combinations and matrices differ in number')
                        e['nodes'].append([dict(comb=c, m=matrix(m.cim), sel=matrix(select(so, c))) for c, m in zip(combs, so.actual_cims)])
                    before = [e['nodes'][0][0]['m']]
        elif s['a'] == 'total':
            N, count, seen = len(ls) * (len(ls) - 1), 0, 0
            while seen < s['runs']:
                err = graph(ng, num, s)
                if err:
                    raise Observed('a graph could not be generated: ' + err)
                count += len({tuple(x) for x in shown(ng, num)[1]})
                seen += N
            e.update(runs=s['runs'], num=s['num'], den=s['den'], count=count * s['runs'] // seen)
        elif s['a'] == 'stats':
            ps = [(a, b) for a in range(1, len(ls) + 1) for b in range(1, len(ls) + 1) if a != b]
            count = {p: 0 for p in ps}
            both = {q: 0 for q in itertools.combinations(ps, 2)}
            for _ in range(s['runs']):
                err = graph(ng, num, s)
                if err:
                    raise Observed('a graph could not be generated: ' + err)
                es = sorted({tuple(x) for x in shown(ng, num)[1]})
                for p in es:
                    if p in count:
                        count[p] += 1
                for q in itertools.combinations(es, 2):
                    if q in both:
                        both[q] += 1
            e.update(runs=s['runs'], num=s['num'], den=s['den'], fixed=s['fixed'], count=list(count.values()), both=list(both.values()))
        ev.append(e)
    meta.setdefault('n', len(ls))
    return meta
