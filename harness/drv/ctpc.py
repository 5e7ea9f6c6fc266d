"""Constraint based learning: with scripted verdicts (C11) or real tests (C11, C12, C13), through the public API."""
import inspect
from drv.util import *


def case(ds):
    cols = ds['cols']
    return cols, {c: i + 1 for i, c in enumerate(cols)}


def named(num, es):
    return [[num[a], num[b]] for a, b in es if a in num and b in num]


def bind(f, kw):
    """kw restricted to the parameters f has"""
    ps = [p for p in inspect.signature(f).parameters]
    return {k: v for k, v in kw.items() if k in ps}


def scripted(sc, ev):
    meta, ds = sc['meta'], sc['ds']
    cols, num = case(ds)
    sp = sample_path(ds, 1.0)
    seed_all(sc['seed'])
    known = [(cols[a - 1], cols[b - 1]) for a, b in meta['known']]
    rnd = random.Random(sc['seed'])
    memo, log, picked = {}, [], {}

    def answer(X, x, S):
        k = (X, x, tuple(sorted(S)))
        if k not in memo:
            if sc['oracle'] == 'random':
                memo[k] = rnd.random() < sc['p']
            elif sc['oracle'] == 'pick':        # one separating set per edge, or none
                if (X, x) not in picked:
                    rest = [i for i in range(1, len(cols) + 1) if i not in (X, x)]
                    picked[(X, x)] = sorted(rnd.sample(rest, rnd.randint(min(sc.get('low', 0), len(rest)), len(rest)))) if rnd.random() < 0.6 else None
                memo[k] = sorted(S) == picked[(X, x)]
            elif sc['oracle'] == 'graph':
                memo[k] = [X, x] not in sc['truth'] and {a for a, b in sc['truth'] if b == x} <= set(S)
            else:
                memo[k] = [X, x] not in sc['truth'] and len(S) >= sc['size']
        return memo[k]

    Base = C('StructureConstraintBasedEstimator')

    class Scripted(Base):
        def complete_test(self, *a, **k):
            b = inspect.signature(Base.complete_test).bind(self, *a, **k).arguments
            X, x, S = num[str(b['test_parent'])], num[str(b['test_child'])], [num[str(s)] for s in b['parent_set']]
            r = answer(X, x, S)
            log.append(dict(a='test', x=x, cand=X, set=S, ans=r))
            return r
    if not {'test_parent', 'test_child', 'parent_set'} <= set(inspect.signature(Base.complete_test).parameters):
        return meta
    est = Scripted(sp, 0.1, 0.1, known_edges=known)
    for _ in range(sc['runs']):
        log.clear()
        r, err = attempt(lambda: est.estimate_structure(disable_multiprocessing=True))
        es = [] if err else edges(r)
        free = [1 for a in cols for b in cols if a != b and (a, b) not in known]
        if log or not free or err:
            for x in range(1, len(cols) + 1):
                ev.append(dict(a='node', x=x))
                ev.extend(e for e in log if e['x'] == x)
                ev.append(dict(a='result', x=x, set=sorted(num[a] for a, b in es if b == cols[x - 1] and a in num)))
            ev.append(dict(a='whole', err=err, loops=len([1 for a, b in es if a == b]), dups=len(es) - len({tuple(e) for e in es}),
                           foreign=len([1 for a, b in es if a not in num or b not in num])))
    return meta


def real(sc, ev):
    meta = sc['meta']
    ds = meta['data'][0]
    cols, num = case(ds)
    sp = sample_path(ds, meta['un'] / meta['ud'])
    seed_all(sc['seed'])
    al = sc['alphas']
    shared = {}

    def est(k, fresh):
        e = meta['ests'][k - 1]
        if fresh or k not in shared:
            q = C('StructureConstraintBasedEstimator')(sp, al[e['fi'] - 1], al[e['ci'] - 1],
                                                       [(cols[a - 1], cols[b - 1]) for a, b in e['known']], e['thr'] / 4 if e['thr'] % 4 else e['thr'] // 4)
            if fresh:
                return q
            shared[k] = q
        return shared[k]
    st = sp.structure
    for s in sc['steps']:
        q = est(s['est'], s.get('fresh', False))
        if s['a'] == 'test':
            X, x = cols[s['cand'] - 1], cols[s['x'] - 1]
            kw = bind(q.complete_test, dict(
                test_parent=X, test_child=x, parent_set=[cols[i - 1] for i in s['set']],
                child_states_numb=st.get_states_number(x), tot_vars_count=len(cols),
                parent_indx=st.get_node_indx(X), child_indx=st.get_node_indx(x)))
            r, err = attempt(lambda: q.complete_test(**kw))
            ev.append(dict(a='test', fresh=bool(s.get('fresh')), est=s['est'], x=s['x'], cand=s['cand'], set=s['set'], err=err, ans=bool(r)))
        else:
            kw = dict(disable_multiprocessing=True) if not s.get('procs') else dict(disable_multiprocessing=False, processes_number=s['procs'])
            r, err = attempt(lambda: q.estimate_structure(**kw))
            ev.append(dict(a='learn', est=s['est'], err=err, edges=[] if err else named(num, edges(r))))
    return meta


def run(sc, ev):
    return scripted(sc, ev) if sc['mode'] == 'scripted' else real(sc, ev)
