"""Samples several trajectories in parallel; the rows of each go to meta for the sampling specification."""
import os, signal, time
from drv.sampling import *

MAIN = os.getpid()


class Fault(Exception):
    pass


def define():
    if 'FtTraj' in globals():
        return
    Base = C('TrajectoryGenerator')

    def CTBN_Sample(self, t_end=-1, max_tr=-1):
        f = getattr(self, 'vf_fault', None)
        if f and max_tr == f['maxtr']:
            open('struck', 'w').close()
            if f['how'] == 'exit' and os.getpid() != MAIN:
                os._exit(3)
            if f['how'] == 'kill' and os.getpid() != MAIN:
                os.kill(os.getpid(), signal.SIGKILL)
            if f['how'] == 'leave':
                raise SystemExit(1)
            if f['how'] == 'memory':
                raise MemoryError()
            raise Fault('planned')
        return Base.CTBN_Sample(self, t_end=t_end, max_tr=max_tr)
    globals()['FtTraj'] = type('FtTraj', (Base,), {'CTBN_Sample': CTBN_Sample, '__module__': __name__, '__qualname__': 'FtTraj'})


def run(sc, ev):
    seed_all(sc['seed'])
    define()
    tg, net = generator(sc, FtTraj)
    ls = net['labels']
    meta = dict(n=len(ls), cards=net['cards'], parents=parents(len(ls), net['edges']), q=net['q'], stats=False, how=sc['how'],
                labels=ls, edges=net['edges'], seed=sc['seed'])
    ids, trajs = {}, []
    if sc.get('fair'):
        # one variable with rate 1: each trajectory waits more or less than ln 2 for its first change
        cases = [0, 0, 0, 0]
        pairs = []
        for _ in range(sc['fair']):
            r = list(tg.multi_trajectory(max_trs=[2] * sc['width']))
            w = [float(f['Time'].tolist()[1]) < 0.693147 for f in r]
            pairs += list(zip(w, w[1:]))[::2]
        for a, b in pairs:
            cases[2 * a + b] += 1
        ev.append(dict(a='fair', n=len(pairs), cases=cases))
        return dict(seed=sc['seed'])
    for s in sc['calls']:
        if s['a'] == 'single':
            f = tg.CTBN_Sample(max_tr=s['maxtr'])
            rs = [f]
            e = dict(a='single')
        else:
            kw = {}
            if s['maxtrs'] != [-1]:
                kw['max_trs'] = list(s['maxtrs'])
            if s['tends'] != [-1]:
                kw['t_ends'] = [None if t == s.get('odd') else t / 10000 for t in s['tends']]
            keep = {k: list(v) for k, v in kw.items()}
            if s.get('reseed'):
                seed_all(sc['seed'] + 1)
            tg.vf_fault = s.get('fault')
            r, err = attempt(lambda: tg.multi_trajectory(**kw))
            tg.vf_fault = None
            if kw != keep:
                raise Observed('the bounds handed in were changed')
            rs = [] if r is None else list(r)
            e = dict(a='multi', tends=s['tends'], maxtrs=s['maxtrs'], err=err, none=r is None, gap=s['gap'],
                     must='fail' if os.path.exists('struck') else s.get('must', 'ok'))
            if os.path.exists('struck'):
                os.unlink('struck')
        e['rows'], e['ends'], e['ids'] = [], [], []
        for f in rs:
            ok, rows = fast_rows(f, ls)
            e['rows'].append(len(rows))
            e['ends'].append(rows[-1]['t'] if rows else BAD)
            key = json.dumps([[w['t'], w['x']] for w in rows])
            e['ids'].append(ids.setdefault(key, len(ids) + 1) if len(rows) >= 6 else 0)
            bound = dict(maxtr=-1, tend=-1)
            if e['a'] == 'multi' and s['tends'] == [-1]:
                bound['maxtr'] = len(rows) - 1
            elif e['a'] == 'multi':
                bound['tend'] = max(s['tends'])
            trajs.append([dict(bound, a='traj', err='', cols=ok)] + rows + [dict(a='end')])
        if e['a'] == 'single':
            e.update(a='multi', must='ok', tends=[-1], maxtrs=[s['maxtr']], err='', none=False, gap=-1)
        ev.append(e)
    return dict(meta, trajs=trajs)
