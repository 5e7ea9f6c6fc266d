"""Exports networks with their trajectories, reads the documents back, and samples from what was read."""
import os
from drv.sampling import *


def strings(m):
    import numpy as np
    return [[repr(float(v)) for v in row] for row in np.asarray(m).tolist()]


def shaped(f):
    """A document that is not laid out as one is an answer of the code under test, not a failure of ours."""
    def g(*a):
        try:
            return f(*a)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as x:
            raise Observed('the document has not the layout of one: %s %s' % (type(x).__name__, x))
    return g


@shaped
def written(name, ls, unit):
    """The document as the specification sees it."""
    num = {l: i + 1 for i, l in enumerate(ls)}
    with open(name) as f:
        d = json.load(f)
    if not isinstance(d, list) or len(d) != 1:
        raise Observed('the document is not a list of one network')
    d = d[0]
    e = dict(vars=[[num.get(v['Name'], 0), whole(v['Value'])] for v in d['variables']],
             edges=[[num.get(x['From'], 0), num.get(x['To'], 0)] for x in d['dyn.str']], cims=[],
             samples=[[[ticks(r['Time'], unit)] + [whole(r.get(l, BAD)) for l in ls] for r in t] for t in d['samples']])
    for l in ls:
        node = []
        for key, m in d['dyn.cims'].get(l, {}).items():
            k = []
            if key != l or any(x[1] == num[l] for x in e['edges']):
                for part in key.split(','):
                    p, v = part.rsplit('=', 1) if '=' in part else (part, '-1')
                    k.append([num.get(p, 0), int(v)])
            node.append(dict(key=k, m=[[repr(float(row[str(j)])) for j in range(len(row))] for row in m]))
        e['cims'].append(node)
    return e


def same_path(a, b):
    return [list(r) for r in a.values.tolist()] == [list(r) for r in b[list(a.columns)].values.tolist()]


KEYS = dict(samples='samples', structure='dyn.str', variables='variables', cims='dyn.cims', time='Time', name='Name')


@shaped
def relabel(name, keys):
    """The same document with other labels for its parts, as the importer can be told."""
    with open(name) as f:
        d = json.load(f)
    for n in d:
        for v in n['variables']:
            if keys['name'] != 'Name':
                v[keys['name']] = v.pop('Name')
        for t in n['samples']:
            for r in t:
                if keys['time'] != 'Time':
                    r[keys['time']] = r.pop('Time')
        for k in ('samples', 'structure', 'variables', 'cims'):
            n[keys[k]] = n.pop(KEYS[k])
    with open(name, 'w') as f:
        json.dump(d, f)


def labelled(name, keys):
    im = C('JsonImporter')(file_path=name, samples_label=keys['samples'], structure_label=keys['structure'], variables_label=keys['variables'],
                           cims_label=keys['cims'], time_key=keys['time'], variables_key=keys['name'])
    im.import_data(0)
    return im


@shaped
def reorder(name, seed):
    with open(name) as f:
        d = json.load(f)
    rnd = random.Random(seed)

    def mixed(o):
        ks = list(o)
        rnd.shuffle(ks)
        return {k: o[k] for k in ks}
    for n in d:
        n['dyn.cims'] = mixed({k: mixed({u: [mixed(r) for r in m] for u, m in c.items()}) for k, c in n['dyn.cims'].items()})
        n['dyn.str'], n['variables'] = [mixed(x) for x in n['dyn.str']], [mixed(x) for x in n['variables']]
    with open(name, 'w') as f:
        json.dump([mixed(n) for n in d], f)


def run(sc, ev):
    seed_all(sc['seed'])
    net, unit = sc['net'], sc.get('unit') or 1e-4
    ls = net['labels']
    num = {l: i + 1 for i, l in enumerate(ls)}
    if sc['how'] == 'generated':
        ng = generated(net, sc['draw'])
        v, d, cims = ng.variables, ng.dyn_str, ng.cims
    else:
        v, d, cims = objects(net, sc.get('ints'))
        if sc.get('thirds'):
            for x, l in enumerate(ls):
                for c in cims[l].actual_cims:
                    c.cim[:] = c.cim / 3
    ps = parents(len(ls), net['edges'])
    meta = dict(n=len(ls), cards=net['cards'], edges=net['edges'], labels=ls, seed=sc['seed'],
                q=[[dict(comb=c, m=strings(select(cims[l], c))) for c in combs([net['cards'][p - 1] for p in ps[x]])]
                   for x, l in enumerate(ls)])
    sc['meta'] = dict(meta)
    tg = C('TrajectoryGenerator')(variables=v, dyn_str=d, dyn_cims=cims)
    ex = C('JsonExporter')(v, d, cims)
    other = C('JsonExporter')(v, d, cims)
    name, keys = None, KEYS
    for k, s in enumerate(sc['steps']):
        if s['a'] == 'add':
            fs = [tg.CTBN_Sample(max_tr=m) for m in s['rows']] if not s['multi'] else list(tg.multi_trajectory(max_trs=s['rows']))
            for f in fs:
                if s.get('own'):
                    break
                ok, rs = fast_rows(f, ls)
                ev.append(dict(a='add', traj=[[r['t']] + r['x'] for r in rs]))
                ex.add_trajectory(f)
            for t in s.get('own', []):
                f = frame(ls, t, unit, dtype=int)
                ev.append(dict(a='add', traj=[list(r) for r in t]))
                ex.add_trajectory(f)
        elif s['a'] == 'other':
            other.add_trajectory(tg.CTBN_Sample(max_tr=3))
        elif s['a'] == 'out':
            name = s['name']
            r, err = attempt(lambda: ex.out_file(name))
            e = dict(a='file', err=err)
            if not err:
                e.update(written(name, ls, unit))
            ev.append(e)
            if err:
                break
        elif s['a'] == 'reorder':          # the entries of an object have no order
            reorder(name, s['seed'])
        elif s['a'] == 'relabel':
            keys = s['keys']
            relabel(name, keys)
        elif s['a'] == 'import':
            e = dict(a='import')
            im, e['err'] = attempt(lambda: labelled(name, keys))
            if not e['err']:
                e['cols'] = [num.get(str(x), 0) for x in im.sorter]
                c = im.concatenated_samples
                e['recs'] = [[ticks(r[0], unit)] + [whole(x) for x in r[1:]] for r in c.to_numpy().tolist()]
                e['vars'] = [[num.get(str(r[0]), 0), whole(r[1])] for r in im.variables.values.tolist()]
                e['edges'] = [[num.get(a, 0), num.get(b, 0)] for a, b in edges(im.structure.values.tolist())] if len(im.structure) else []
            ev.append(e)
            if e['err']:
                break
        elif s['a'] == 'twin':
            def path(g, sd):
                seed_all(sd)
                return g.CTBN_Sample(max_tr=s['rows'])
            a, b = path(tg, s['seed']), path(tg, s['seed'])
            if not same_path(a, b):
                continue                          # seeding the global generators has no hold on this sampler
            tw, err = attempt(lambda: path(C('TrajectoryGenerator')(labelled(name, keys)), s['seed']))
            ev.append(dict(a='twin', err=err, same=not err and same_path(a, tw)))
    if sc.get('stats'):
        net['q'] = [[dict(comb=c, m=matrix(select(cims[l], c))) for c in combs([net['cards'][p - 1] for p in ps[x]])] for x, l in enumerate(ls)]
        meta['second'] = dict(meta=dict(n=len(ls), cards=net['cards'], parents=ps, q=net['q'], stats=True), ev=[])
        g = C('TrajectoryGenerator')(labelled(name, keys))
        f, err = attempt(lambda: g.CTBN_Sample(max_tr=sc['stats']))
        ok, rs = (True, []) if err else fast_rows(f, ls)
        meta['second']['ev'] = [dict(a='traj', maxtr=sc['stats'], tend=-1, err=err, cols=ok)] + rs + [dict(a='end'), dict(a='judge')]
    return meta
