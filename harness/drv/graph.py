"""Replays edit histories (behaviours of GraphMC) on a structure and its graph."""
from drv.util import *


def compared(st, rnd):
    """Comparisons of the structure with structures built anew, each with the content that was given."""
    import numpy as np
    ls, ix, cs, es = list(st.nodes_labels), list(st.nodes_indexes), list(st.nodes_values), [tuple(e) for e in st.edges]
    out, n = [], len(ls)
    forms = [(ls, ix, cs, es)]
    if n > 1:
        i, j = rnd.sample(range(n), 2)
        sw = list(ls)
        sw[i], sw[j] = sw[j], sw[i]
        forms.append((sw, ix, cs, es))
        free = [(a, b) for a in ls for b in ls if a != b and (a, b) not in es]
        if free:
            forms.append((ls, ix, cs, es + [rnd.choice(free)]))
    if n:
        k = rnd.randrange(n)
        forms += [(ls, ix, [c + (i == k) for i, c in enumerate(cs)], es), (ls, [c + (i >= k) for i, c in enumerate(ix)], cs, es),
                  (ls[:-1], ix[:-1], cs[:-1], [e for e in es if ls[-1] not in e])]
    if es:
        k = rnd.randrange(len(es))
        forms.append((ls, ix, cs, es[:k] + es[k + 1:]))
        if es[k][::-1] not in es:
            forms.append((ls, ix, cs, es[:k] + [es[k][::-1]] + es[k + 1:]))
    for l, i, c, e in forms:
        o = C('Structure')(list(l), np.array(i), np.array(c), list(e), st.total_variables_number)
        out.append(dict(nodes=[dict(l=str(a), i=whole(b), c=whole(d)) for a, b, d in zip(l, i, c)], edges=edges(e), eq=bool(st == o), back=bool(o == st)))
    return out


def run(sc, ev):
    import numpy as np
    meta = sc['meta']
    nodes = meta['nodes']
    if sc['form'] == 'path':
        cols = [v['l'] for v in nodes]
        sp = sample_path(dict(cols=cols, traj=[[[0] + [0] * len(cols), [1] + [0] * len(cols)]],
                              vars=[[v['l'], v['c']] for v in nodes], edges=meta['edges']), 1.0)
        st = sp.structure
    else:
        st = C('Structure')([v['l'] for v in nodes], np.array([v['i'] for v in nodes]), np.array([v['c'] for v in nodes]),
                            [tuple(e) for e in meta['edges']], meta['total'])
    g, fresh = None, False
    rnd = random.Random(len(nodes) + 31 * len(sc['ops']) + len(meta['edges']))
    for o in sc['ops']:
        es, x = [tuple(e) for e in o['edges']], o['x']
        e = dict(a='edit', op=o['op'], edges=[list(p) for p in es], x=x)

        def f():
            nonlocal g, fresh
            if o['op'] == 'sadd':
                for p in es:
                    st.add_edge(p)
            elif o['op'] == 'sdel':
                for p in es:
                    st.remove_edge(p)
            elif o['op'] == 'sclean':
                st.clean_structure_edges()
            elif o['op'] == 'snode':
                st.remove_node(x)
                g = None
            elif o['op'] == 'gnew':
                g, fresh = C('NetworkGraph')(st), True
                g.add_nodes(st.nodes_labels)
                g.add_edges(st.edges)
            elif o['op'] == 'gadd':
                g.add_edges(es)
            elif o['op'] == 'gdel':
                g.remove_edges(es)
            elif o['op'] == 'gnode':
                fresh = False
                g.remove_node(x)
            elif o['op'] == 'ginit':
                g.fast_init(x)
        _, e['err'] = attempt(f)
        e['seen'] = not e['err'] and (rnd.random() < 0.7 or o is sc['ops'][-1])
        if e['seen']:
            ls = [str(l) for l in st.nodes_labels]
            pairs = [(a, b) for a in ls for b in ls if a != b]
            e['S'] = dict(labels=ls, indexes=[whole(v) for v in list(st.nodes_indexes)], values=[whole(v) for v in list(st.nodes_values)],
                          edges=edges(st.edges), total=whole(st.total_variables_number),
                          ask=[dict(l=l, i=whole(st.get_node_indx(l)), c=whole(st.get_states_number(l)),
                                    pos=whole(st.get_positional_node_indx(l))) for l in ls],
                          member=[[list(p), bool(st.contains_edge(p))] for p in pairs], ids=[str(st.get_node_id(k)) for k in range(len(ls))])
            e['S']['cmp'] = compared(st, rnd)
            e['S']['alien'] = bool(st == ls)
            if g is not None:
                ask = []
                for l in ls:
                    ps, pi, pc = g.get_ordered_by_indx_set_of_parents(l)
                    ask.append(dict(l=l, i=whole(g.get_node_indx(l)), c=whole(g.get_states_number(l)), parents=[str(p) for p in g.get_parents_by_id(l)],
                                    ordered=[str(p) for p in ps], pi=[whole(v) for v in pi], pc=[whole(v) for v in pc]))
                e['G'] = dict(nodes=[str(l) for l in g.nodes], indexes=[whole(v) for v in list(g.nodes_indexes)],
                              values=[whole(v) for v in list(g.nodes_values)], edges=edges(g.edges), ask=ask,
                              member=[[list(p), bool(g.has_edge(p))] for p in pairs])
                if fresh:                  # positions are given out when the graph is built
                    e['G']['pos'] = [whole(g.get_positional_node_indx(l)) for l in ls]
                if o['op'] == 'ginit':
                    e['G']['time'] = [whole(v) for v in list(g.time_filtering)]
                    e['G']['trans'] = [whole(v) for v in list(g.transition_filtering)]
        ev.append(e)
        if e['err']:
            break
    return meta
