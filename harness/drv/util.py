"""Projection of what the code under test shows to integers and strings, and construction of its inputs.
Only public API of the package is used."""
import math, random
from fractions import Fraction

BAD = -999999999          # an observation that has no faithful projection
M = {}


class Observed(Exception):
    """The code under test returned something no projection is defined for."""


def load():
    import importlib
    base = 'PyCTBN.PyCTBN.'
    for mod, names in {
        'utility.sample_importer': ['SampleImporter'], 'utility.json_importer': ['JsonImporter'],
        'utility.json_exporter': ['JsonExporter'], 'utility.cache': ['Cache'],
        'structure_graph.sample_path': ['SamplePath'], 'structure_graph.structure': ['Structure'],
        'structure_graph.network_graph': ['NetworkGraph'], 'structure_graph.trajectory': ['Trajectory'],
        'structure_graph.set_of_cims': ['SetOfCims'], 'structure_graph.network_generator': ['NetworkGenerator'],
        'structure_graph.conditional_intensity_matrix': ['ConditionalIntensityMatrix'],
        'structure_graph.trajectory_generator': ['TrajectoryGenerator'],
        'estimators.parameters_estimator': ['ParametersEstimator'],
        'estimators.fam_score_calculator': ['FamScoreCalculator'],
        'estimators.structure_estimator': ['StructureEstimator'],
        'estimators.structure_score_based_estimator': ['StructureScoreBasedEstimator'],
        'estimators.structure_constraint_based_estimator': ['StructureConstraintBasedEstimator'],
        'optimizers.hill_climbing_search': ['HillClimbing'], 'optimizers.tabu_search': ['TabuSearch'],
        'optimizers.constraint_based_optimizer': ['ConstraintBasedOptimizer'],
    }.items():
        m = importlib.import_module(base + mod)
        for n in names:
            M[n] = getattr(m, n)


def C(name):
    return M[name]


def seed_all(s):
    import numpy as np
    random.seed(s)
    np.random.seed(s % (2 ** 32))


def ticks(x, unit):
    """x as a whole number of units, BAD when it is not one (to 1e-9)."""
    try:
        q = float(x) / unit
        r = round(q)
        if math.isfinite(q) and abs(q - r) < 1e-6 and abs(r) < 2 ** 31 - 1:
            return int(r)
    except (TypeError, ValueError, OverflowError):
        pass
    return BAD


def whole(x):
    return ticks(x, 1)


def rat(x, maxden=20000):
    """A float as the rational <<num, den>> it rounds from (BAD if it is not within 1e-11 of a small one)."""
    try:
        f = float(x)
        if not math.isfinite(f):
            return [BAD, 1]
        q = Fraction(f).limit_denominator(maxden)
        if abs(float(q) - f) > 1e-11 * abs(f) and abs(f) < 1:           # a very small one
            q = Fraction(f).limit_denominator(2 ** 28)
        if abs(float(q) - f) > 1e-11 * max(1.0, abs(f)) or abs(q.numerator) > 2 ** 30:
            return [BAD, 1]
        return [q.numerator, q.denominator]
    except (TypeError, ValueError, OverflowError):
        return [BAD, 1]


def scaled(x, k, cap=2 * 10 ** 9):
    """floor(x*k) as an integer, clipped."""
    f = float(x)
    if math.isnan(f):
        return BAD
    f = f * k
    if f > cap:
        return cap
    if f < -cap:
        return -cap
    return int(math.floor(f))


def edges(es):
    try:
        return [[str(e[0]), str(e[1])] for e in es]
    except Exception as x:
        raise Observed('edges: %r' % (es,))


def attempt(f):
    """(result, '') or (None, name of the error)."""
    try:
        return f(), ''
    except Exception as x:
        return None, type(x).__name__
    

def frame(cols, rows, unit, timecol='Time', dtype=float, timeint=False):
    import pandas as pd
    d = {timecol: [int(r[0] * unit) if timeint else r[0] * unit for r in rows]}
    for j, c in enumerate(cols):
        d[c] = [dtype(r[j + 1]) for r in rows]
    return pd.DataFrame(d, columns=[timecol] + list(cols))


def expand(ds):
    """The rows of a data set whose trajectories are listed in short."""
    if 'rep' not in ds:
        return ds
    out = []
    for t in ds['traj']:
        p = t[-1][0] - t[0][0] + ds['gap']
        out.append([[r[0] + i * p] + r[1:] for i in range(ds['rep']) for r in t])
    return dict(ds, traj=out)


def runs(ds, recs):
    """Records in short again: blocks of the length of a pattern, equal ones that follow one another counted."""
    if 'rep' not in ds:
        return recs
    out, i = [], 0
    for t in ds['traj']:
        end = i + ds['rep'] * len(t) - 1
        first = len(out)
        while i < min(end, len(recs)):
            b = recs[i:min(i + len(t), end)]
            if len(out) > first and out[-1][0] == b:
                out[-1][1] += 1
            else:
                out.append([b, 1])
            i += len(b)
    if i < len(recs):
        out.append([recs[i:i + 50], len(recs) - i])
    return out[:200]


def sample_path(ds, unit, prior=True):
    """A SamplePath of a data set [cols, traj, vars, edges] through the in-memory importer."""
    import pandas as pd
    frames = [frame(ds['cols'], t, unit, dtype=int) for t in expand(ds)['traj']]
    v = pd.DataFrame({'Name': [x[0] for x in ds['vars']], 'Value': [x[1] for x in ds['vars']]})
    p = pd.DataFrame([tuple(e) for e in ds.get('edges', [])], columns=['From', 'To']) if prior else None
    im = C('SampleImporter')(trajectory_list=frames, variables=v, prior_net_structure=p)
    im.import_data()
    sp = C('SamplePath')(im)
    sp.build_trajectories()
    sp.build_structure()
    return sp
