"""The whole chain on shared objects: networks, trajectories, documents, importers, sample paths, estimates, learned
structures - and a look at any of them at any time."""
import json, os
from drv.sampling import *
from drv.stats import look as look_at_matrices
from drv.util import edges as named_edges


class Net:
    def __init__(self, net, how, seed, draw):
        self.ls = net['labels']
        self.num = {l: i + 1 for i, l in enumerate(self.ls)}
        if how == 'generated':
            ng = generated(net, draw)
            self.v, self.d, self.cims = ng.variables, ng.dyn_str, ng.cims
        else:
            self.v, self.d, self.cims = objects(net)
        self.net = net
        self.ps = parents(len(self.ls), net['edges'])
        self.tg = C('TrajectoryGenerator')(variables=self.v, dyn_str=self.d, dyn_cims=self.cims)
        self.ex = C('JsonExporter')(self.v, self.d, self.cims)

    def show(self):
        es = [[self.num.get(str(a), 0), self.num.get(str(b), 0)] for a, b in zip(self.d['From'].tolist(), self.d['To'].tolist())]
        cards = [whole(c) for c in self.v['Value'].tolist()]
        names = [self.num.get(str(l), 0) for l in self.v['Name'].tolist()]
        ps = parents(len(self.ls), es)
        q = [[dict(comb=c, m=matrix(select(self.cims[l], c))) for c in combs([cards[p - 1] for p in ps[x]])] for x, l in enumerate(self.ls)]
        return dict(n=len(set(names) - {0}), cards=cards, parents=ps, q=q)


def table(frame, ls):
    ok, rs = fast_rows(frame, ls)
    return [[r['t']] + r['x'] for r in rs] if ok else []


def parts_of(name, nets, parts):
    with open(name) as f:
        ds = json.load(f)
    if not isinstance(ds, list):
        ds = [ds]
    out = []
    for i, d in enumerate(ds):
        N = nets[parts[min(i, len(parts) - 1)]['net'] - 1]
        out.append(dict(vars=[[N.num.get(v['Name'], 0), whole(v['Value'])] for v in d['variables']],
                        edges=[[N.num.get(x['From'], 0), N.num.get(x['To'], 0)] for x in d['dyn.str']],
                        samples=[[[ticks(r['Time'], 1e-4)] + [whole(r.get(l, BAD)) for l in N.ls] for r in t] for t in d['samples']]))
    return out


def run(sc, ev):
    import numpy as np
    seed_all(sc['seed'])
    nets = [Net(n, h, sc['seed'], dr) for n, h, dr in zip(sc['nets'], sc['hows'], sc['draws'])]
    meta = dict(un=1, ud=10000, seed=sc['seed'], labels=[N.ls for N in nets],
                nets=[dict(n=len(N.ls), cards=N.net['cards'], parents=N.ps, q=N.net['q']) for N in nets])
    sc['meta'] = dict(meta)
    frames, docs, ims, paths, ests = [], {}, {}, [], {}

    def see(s):
        if s['a'] == 'network':
            r, err = attempt(nets[s['k'] - 1].show)
            e = dict(a='network', k=s['k'], err=err)
            if r:
                e['net'] = r
        elif s['a'] == 'rows':
            k, f = frames[s['k'] - 1]
            e = dict(a='rows', k=s['k'], rows=table(f, nets[k - 1].ls))
        elif s['a'] == 'document':
            e = dict(a='document', f=s['f'], docs=parts_of(s['f'] + '.json', nets, docs[s['f']]))
        else:
            k, sp = paths[s['k'] - 1]
            N = nets[k - 1]
            e = dict(a='path', k=s['k'])

            def f():
                t, st = sp.trajectories, sp.structure
                return dict(recs=[[ticks(a, 1e-4)] + [whole(v) for v in b] for a, b in zip(t.times.tolist(), t.complete_trajectory.tolist())],
                            vars=[[N.num.get(str(l), 0), whole(c)] for l, c in zip(st.nodes_labels, st.nodes_values.tolist())],
                            edges=[[N.num.get(a, 0), N.num.get(b, 0)] for a, b in named_edges(st.edges)])
            r, e['err'] = attempt(f)
            e.update(r or {})
        ev.append(e)

    def document(s):
        """one network per part, written by the exporter; several parts are put in one array"""
        whole_doc = []
        for p in s['parts']:
            N = nets[p['net'] - 1]
            ex = C('JsonExporter')(N.v, N.d, N.cims)
            for w in p['which']:
                ex.add_trajectory(frames[w - 1][1])
            ex.out_file(s['f'] + '.json')
            if len(s['parts']) > 1:
                with open(s['f'] + '.json') as f:
                    whole_doc += json.load(f)
        if len(s['parts']) > 1:
            with open(s['f'] + '.json', 'w') as f:
                json.dump(whole_doc, f)

    def read(s):
        """an importer of the document, perhaps one used before"""
        f = s['f']
        if f not in ims or not s['again']:
            ims[f] = C('JsonImporter')(file_path=f + '.json', samples_label='samples', structure_label='dyn.str', variables_label='variables',
                                       cims_label='dyn.cims', time_key='Time', variables_key='Name')
        ims[f].import_data(s['i'] - 1)
        return ims[f]

    def path(s):
        if s['f']:
            im = read(s)
        else:
            N = nets[s['k'] - 1]
            im = C('SampleImporter')(trajectory_list=[frames[w - 1][1] for w in s['which']], variables=N.v,
                                     prior_net_structure=N.d if s['prior'] else None)
            im.import_data()
        sp = C('SamplePath')(im)
        sp.build_trajectories()
        sp.build_structure()
        return sp

    for s in sc['steps']:
        if s['a'] in ('network', 'rows', 'document', 'path'):
            see(s)
            continue
        if s['a'] == 'sample':
            kw = {}
            if s['maxtr'] >= 0:
                kw['max_tr'] = s['maxtr']
            if s['tend'] >= 0:
                kw['t_end'] = s['tend'] / 10000

            def f():
                tg = C('TrajectoryGenerator')(read(s)) if s['f'] else nets[s['k'] - 1].tg
                return tg.CTBN_Sample(**kw)
            r, err = attempt(f)
            ev.append(dict(a='sample', k=s['k'], maxtr=s['maxtr'], tend=s['tend'], err=err, rows=[] if err else table(r, nets[s['k'] - 1].ls)))
            frames.append((s['k'], r))
        elif s['a'] == 'write':
            r, err = attempt(lambda: document(s))
            ev.append(dict(a='write', f=s['f'], parts=s['parts'], err=err))
            docs[s['f']] = s['parts']
            ims.pop(s['f'], None)
        elif s['a'] == 'load':
            r, err = attempt(lambda: path(s))
            ev.append(dict(a='load', f=s['f'], i=s['i'], k=s['k'], which=s['which'], prior=s['prior'], err=err))
            paths.append((s['k'], r))
        else:
            k, sp = paths[s['k'] - 1]
            N = nets[k - 1]
            if s['a'] == 'estimate':
                e = dict(a='estimate', k=s['k'], form=s['form'], node=s['node'], parents=s['parents'])

                def f():
                    x = N.ls[s['node'] - 1]
                    st = sp.structure
                    if s['form'] != 'prior':        # a structure of the node and the parents asked for
                        keep = [l for l in st.nodes_labels if l == x or N.num[l] in s['parents']]
                        st = C('Structure')(keep, np.array([st.get_node_indx(l) for l in keep]), np.array([st.get_states_number(l) for l in keep]),
                                            [(l, x) for l in keep if l != x], len(N.ls))
                    g = C('NetworkGraph')(st)
                    g.fast_init(x)
                    pe = C('ParametersEstimator')(sp.trajectories, g)
                    pe.fast_init(x)
                    return pe.compute_parameters_for_node(x)
                r, e['err'] = attempt(f)
                if not e['err']:
                    look_at_matrices(r, e, 1e-4)
                    e['C'] = [[[rat(v, 4 * 10 ** 6) for v in w] for w in c.cim.tolist()] for c in list(r.actual_cims)]
            elif s['a'] == 'learn':
                def f():
                    if s['alg'] == 'ctpc':
                        key = (s['k'], s['alpha'], str(s['known']))
                        if key not in ests or s['fresh']:
                            ests[key] = C('StructureConstraintBasedEstimator')(sp, s['alpha'] / 100, s['alpha'] / 100,
                                                                              known_edges=[(N.ls[a - 1], N.ls[b - 1]) for a, b in s['known']])
                        q = ests[key]
                        return q, q.estimate_structure(disable_multiprocessing=True)
                    key = (s['k'], 'score', str(s['known']))
                    if key not in ests or s['fresh']:
                        ests[key] = C('StructureScoreBasedEstimator')(sp, known_edges=[(N.ls[a - 1], N.ls[b - 1]) for a, b in s['known']])
                    q = ests[key]
                    return q, q.estimate_structure(iterations_number=s['iters'], patience=None, optimizer=s['alg'], disable_multiprocessing=True)
                r, err = attempt(f)
                last = r[0] if r else None
                e = dict(a='learn', k=s['k'], how=s['how'], known=s['known'], err=err,
                         edges=[[N.num.get(a, 0), N.num.get(b, 0)] for a, b in named_edges(r[1])] if r else [])
            elif s['a'] == 'edit':
                a, b = N.ls[s['edge'][0] - 1], N.ls[s['edge'][1] - 1]
                st = sp.structure
                add, err = attempt(lambda: not st.contains_edge((a, b)))
                if not err:
                    r, err = attempt(lambda: (st.add_edge if add else st.remove_edge)((a, b)))
                e = dict(a='edit', k=s['k'], add=bool(add), edge=s['edge'], err=err)
            elif s['a'] == 'spurious':
                r, err = attempt(lambda: named_edges(list(last.spurious_edges())))
                e = dict(a='spurious', k=s['k'], err=err, edges=[[N.num.get(a, 0), N.num.get(b, 0)] for a, b in r or []])
            ev.append(e)
        if ev[-1].get('err'):
            break
    return meta
