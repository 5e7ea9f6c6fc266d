"""Drives importers and sample paths: scenario = meta.data (data sets) + steps."""
import copy, json, os
from drv.util import *


def run(sc, ev):
    import pandas as pd, numpy as np
    meta = sc['meta']
    unit = sc['unit']
    data = meta['data']
    imps, paths, kind, frames, filed, docs, ds_of, now = {}, {}, {}, {}, {}, {}, {}, {}
    for n, s in enumerate(sc['steps']):
        k = s.get('k')
        if s['a'] == 'new':
            kind[k], ds_of[k] = s['kind'], s['ds']
            e = dict(a='new', k=k, kind=s['kind'], ds=s['ds'], err='')
            if s['kind'] == 'json':
                keys = s['keys']
                doc = []
                mix = __import__('random').Random(s.get('mixed', 0))
                for d in s['ds']:
                    ds = data[d - 1]
                    smp = []
                    for t in expand(ds)['traj']:
                        rows = []
                        tpos = mix.randrange(9) if s.get('mixed') and mix.random() < 0.6 else s['tpos']
                        for r in t:
                            row = {c: v for c, v in zip(ds['cols'], r[1:])}
                            items = list(row.items())
                            if s.get('mixed') and (smp or rows):    # the keys of an object have no order
                                mix.shuffle(items)
                            items.insert(min(tpos, len(items)), (keys['time'], r[0] * unit))
                            rows.append(dict(items))
                        smp.append(rows)
                    doc.append({keys['samples']: smp,
                                keys['structure']: [entry(mix, s, [('From', a), ('To', b)]) for a, b in ds['edges']],
                                keys['variables']: [entry(mix, s, [(keys['vname'], a), ('Value', b)]) for a, b in ds['vars']]})
                path = os.path.join(os.getcwd(), 'doc-%d-%d.json' % (n, k))
                with open(path, 'w') as f:
                    json.dump(doc[0] if s.get('bare') and len(doc) == 1 else doc, f)
                imps[k], e['err'] = attempt(lambda: C('JsonImporter')(path, keys['samples'], keys['structure'],
                                                                      keys['variables'], keys['time'], keys['vname']))
            else:
                ds = data[s['ds'][0] - 1]
                fr = [frame(ds['cols'], t, unit, timecol=s['timecol'], dtype=dict(int=int, float=float)[s['dtype']],
                            timeint=s['timeint']) for t in expand(ds)['traj']]
                if s.get('mixed'):          # later trajectories list the variables in another order
                    for i in range(1, len(fr)):
                        cs = list(fr[i].columns)[1:]
                        __import__('random').Random(s['mixed'] + i).shuffle(cs)
                        fr[i] = fr[i][[list(fr[i].columns)[0]] + cs]
                if s.get('note'):           # a column that is no variable (the caller names the variables)
                    for x in fr:
                        x.insert(1 + s['note'] % len(x.columns), 'a note', ['n%d' % i for i in range(len(x))])
                if s['index'] == 'dup':
                    for x in fr:
                        x.index = [0] * len(x)
                elif s['index'] == 'rev':
                    for x in fr:
                        x.index = list(range(len(x) - 1, -1, -1))
                elif s['index'] == 'str':
                    for x in fr:
                        x.index = ['r%d' % (i // 2) for i in range(len(x))]
                frames[k] = fr
                v = pd.DataFrame({'Name': [x[0] for x in ds['vars']], 'Value': [x[1] for x in ds['vars']]})
                if s['vindex'] == 'shift':
                    v.index = [i + 3 for i in range(len(v))]
                elif s['vindex'] == 'rev':
                    v.index = list(range(len(v) - 1, -1, -1))
                elif s['vindex'] == 'name':
                    v.index = [x[0] for x in ds['vars']]
                p = pd.DataFrame([tuple(x) for x in ds['edges']], columns=['From', 'To'])
                if s['vindex'] != 'plain' and len(p):
                    p.index = list(range(len(p), 0, -1))
                if s.get('aslist'):
                    v = [list(x) for x in ds['vars']]
                    p = [tuple(x) for x in ds['edges']]
                if s.get('novars'):
                    v = None
                if not ds['edges'] and s.get('noprior'):
                    p = None
                filed[k] = (v, p)
                docs[k] = (copy.deepcopy(fr), copy.deepcopy(v), copy.deepcopy(p))
                imps[k], e['err'] = attempt(lambda: (own(s['own']) if s.get('own') else C('SampleImporter'))(
                    trajectory_list=fr, variables=v, prior_net_structure=p))
            ev.append(e)
            if e['err']:
                return meta
        elif s['a'] == 'import':
            im = imps[k]
            e = dict(a='import', k=k, i=s['i'], header=s['header'], same=True)
            if kind[k] == 'json':
                _, e['err'] = attempt(lambda: im.import_data(s['i'] - 1))
            elif s['header']:
                h = list(s['header'])
                _, e['err'] = attempt(lambda: im.import_data(h))
                e['same'] = h == list(s['header'])
            else:
                _, e['err'] = attempt(lambda: im.import_data())
            if not e['err']:
                look_import(im, e, unit, data[ds_of[k][s['i'] - 1] - 1])
                now[k] = data[ds_of[k][s['i'] - 1] - 1]
            ev.append(e)
        elif s['a'] == 'path':
            paths.pop(k, None)
            sp, err = attempt(lambda: C('SamplePath')(imps[k]))
            if not err:
                paths[k] = sp
            ev.append(dict(a='path', k=k, err=err))
        elif s['a'] == 'build':
            e = dict(a='build', k=k, err='nopath')
            if k in paths:
                sp = paths[k]
                def f():
                    if s['first'] == 'structure':
                        sp.build_structure(); sp.build_trajectories()
                    else:
                        sp.build_trajectories(); sp.build_structure()
                _, e['err'] = attempt(f)
                if not e['err']:
                    look_path(sp, e, unit, now.get(k, {}))
            ev.append(e)
        elif s['a'] == 'edit':
            sp = paths[k]
            st = sp.structure
            edge = tuple(s['edge'])
            r, err = attempt(lambda: {'has': st.contains_edge, 'add': st.add_edge, 'remove': st.remove_edge}[s['op']](edge))
            ev.append(dict(a='edit', k=k, op=s['op'], edge=list(edge), res=bool(r), err=err, edges=edges(st.edges)))
    for k in docs:
        same = all(a.equals(b) and list(a.index) == list(b.index) and list(a.columns) == list(b.columns)
                   and list(a.dtypes) == list(b.dtypes) for a, b in zip(frames[k], docs[k][0]))
        for a, b in zip(filed[k], docs[k][1:]):
            same = same and (a.equals(b) if hasattr(a, 'equals') else a == b)
        ev.append(dict(a='inputs', k=k, same=bool(same)))
    return meta


def entry(mix, s, items):
    if s.get('mixed') and mix.random() < 0.7:
        items.reverse()
    return dict(items)


def own(mode):
    """A user's importer that keeps its records in an array (or has none yet)."""
    class Own(C('SampleImporter')):
        def __init__(self, **k):
            super().__init__(**k)
            self._concatenated_samples = None

        def import_data(self, *a):
            self._concatenated_samples = []
            super().import_data(*a)
            self._concatenated_samples = self._concatenated_samples.to_numpy(dtype=float)

        def build_list_of_samples_array(self, c):
            return [c[:, 0], c[:, 1:].astype(int)]

        def clear_concatenated_frame(self):
            if self._concatenated_samples is not None:
                self._concatenated_samples = self._concatenated_samples[:0]
    return Own


def look_import(im, e, unit, ds):
    import numpy as np
    c = im.concatenated_samples
    e['cols'] = [str(x) for x in list(im.sorter)]
    a = c.to_numpy() if hasattr(c, 'to_numpy') else np.asarray(c)
    e['recs'] = [[ticks(r[0], unit)] + [whole(x) for x in r[1:]] for r in a.tolist()] if a.size else []
    times, rows = im.build_list_of_samples_array(c)
    e['recs2'] = [[ticks(t, unit)] + [whole(x) for x in r] for t, r in zip(list(times), rows.tolist())]
    e['recs'], e['recs2'] = runs(ds, e['recs']), runs(ds, e['recs2'])
    e['named'] = all(x in list(getattr(c, 'columns', im.sorter)) for x in im.sorter)
    e['vars'] = [] if im.variables is None else [[str(r[0]), whole(r[1])] for r in im.variables.values.tolist()]
    e['edges'] = [] if im.structure is None else edges(im.structure.values.tolist())


def look_path(sp, e, unit, ds):
    t = sp.trajectories
    e['recs'] = [[ticks(a, unit)] + [whole(x) for x in r] for a, r in zip(list(t.times), t.complete_trajectory.tolist())]
    e['now'] = [[whole(x) for x in r] for r in t.trajectory.tolist()]
    e['recs'], e['now'] = runs(ds, e['recs']), runs(ds, e['now'])
    e['size'] = whole(t.size())
    s = sp.structure
    e['labels'] = [str(x) for x in s.nodes_labels]
    e['cards'] = [whole(x) for x in s.nodes_values]
    e['indexes'] = [whole(x) for x in s.nodes_indexes]
    e['edges'] = edges(s.edges)
    e['total'] = whole(sp.total_variables_count)
    e['prior'] = bool(sp.has_prior_net_structure)
    e['bylabel'] = [[str(l), whole(s.get_states_number(l)), whole(s.get_node_indx(l)), whole(s.get_positional_node_indx(l)),
                     str(s.get_node_id(i))] for i, l in enumerate(list(s.nodes_labels))]
