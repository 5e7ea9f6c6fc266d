"""The same operations after the same seeds: on fresh objects, on objects used before, in other processes."""
import hashlib
from drv.sampling import *


def text(x):
    """Numbers to 12 digits, everything else as it shows."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): text(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    if isinstance(x, np.ndarray):
        return text(x.tolist())
    if isinstance(x, (int, float, np.number)):
        return '%.12g' % float(x)
    return str(x)


def shortened(x):
    t = json.dumps(text(x))
    return t if len(t) < 120 else t[:60] + '...' + hashlib.sha1(t.encode()).hexdigest()


def values(frame):
    return [[str(c) for c in frame.columns], frame.values.tolist()]


class Things:
    """The objects of one life."""

    def __init__(self, sc):
        self.sc = sc
        n = sc['gen']
        self.ng = C('NetworkGenerator')(list(n['labels']), list(n['cards']))
        self.v, self.d, self.cims = objects(sc['net'])
        self.tg = C('TrajectoryGenerator')(variables=self.v, dyn_str=self.d, dyn_cims=self.cims)
        self.sp = sample_path(sc['ds'], 1.0)
        self.est = {}

    def estimator(self, alg):
        if alg not in self.est:
            self.est[alg] = C('StructureConstraintBasedEstimator')(self.sp, 0.1, 0.1) if alg == 'ctpc' else C('StructureScoreBasedEstimator')(self.sp)
        return self.est[alg]

    def do(self, s):
        if s['a'] == 'graph':
            self.ng.generate_graph(s['density'], s['fixed'])
            return sorted(edges(self.ng.graph.edges))
        if s['a'] == 'network':
            self.ng.generate_graph(s['density'])
            self.ng.generate_cims(s['lo'], s['hi'])
            return [sorted(edges(self.ng.graph.edges)), {l: [[c.tolist(), m.cim.tolist()] for c, m in zip(q.p_combs, q.actual_cims)] for l, q in self.ng.cims.items()}]
        if s['a'] == 'chain':
            self.ng.generate_graph(s['density'])
            self.ng.generate_cims(s['lo'], s['hi'])
            tg = C('TrajectoryGenerator')(variables=self.ng.variables, dyn_str=self.ng.dyn_str, dyn_cims=self.ng.cims)
            return values(tg.CTBN_Sample(max_tr=s['maxtr']))
        if s['a'] == 'sample':
            return values(self.tg.CTBN_Sample(**s['bound']))
        if s['a'] == 'multi':
            return sorted(json.dumps(text(values(f))) for f in list(self.tg.multi_trajectory(**s['bound'])))
        e = self.estimator(s['alg'])
        if s['alg'] == 'ctpc':
            return sorted(edges(e.estimate_structure(disable_multiprocessing=s['alone'])))
        if s['node']:
            return sorted(edges(e.estimate_parents(s['node'], optimizer=s['alg'], **s['opts'])))
        return sorted(edges(e.estimate_structure(optimizer=s['alg'], disable_multiprocessing=True, **s['opts'])))


def run(sc, ev):
    things = Things(sc)
    for life in sc['lives']:
        if life['fresh']:
            things = Things(sc)
        for s in life['before']:
            attempt(lambda: things.do(s))
        seed_all(life['seed'])
        ev.append(dict(a='seed', x=str(life['seed'])))
        for s in life['ops']:
            r, err = attempt(lambda: things.do(s))
            ev.append(dict(a='do', op=json.dumps(s, sort_keys=True), err=err, out='' if err else shortened(r)))
    return dict(seed=sc['lives'][0]['seed'])
