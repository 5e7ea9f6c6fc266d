import gen
from checks import sampling


def scenario(rng, steps):
    m = rng.choice([1, 1, 2])
    sc = dict(seed=rng.randrange(10 ** 6), meta={}, nets=[], hows=[], draws=[])
    for _ in range(m):
        n, how = rng.choice([1, 2, 2, 3, 3, 4]), rng.choice(['objects', 'objects', 'generated'])
        if how == 'objects':
            sc['nets'].append(sampling.network(rng, n, maxcard=3, maxconf=12, rates=(10000, 20000, 40000)))
        else:
            sc['nets'].append(dict(labels=gen.labels(rng, n), cards=[rng.choice([2, 3]) for _ in range(n)]))
        sc['hows'].append(how)
        sc['draws'].append(dict(density=rng.choice([0, 0.3, 0.6]), lo=1, hi=rng.choice([2, 6])))
    st, good, trajs, docs, paths, fresh = [], {k: [] for k in range(1, m + 1)}, [], {}, [], 100

    def sample():
        k, f, i = rng.randint(1, m), '', 0
        if docs and rng.random() < 0.25:
            f = rng.choice(sorted(docs))
            i = rng.randint(1, len(docs[f]))
            k = docs[f][i - 1]['net']
        s = dict(a='sample', k=k, f=f, i=i, again=rng.random() < 0.5, maxtr=-1, tend=-1)
        if rng.random() < 0.75:
            s['maxtr'] = rng.choice([0, 1, 2, 5, 10, 30])
        else:
            s['tend'] = rng.choice([0, 1, 5000, 20000, 60000])
        trajs.append(k)
        if s['maxtr'] > 0:
            good[k].append(len(trajs))
        return s

    def which(k):
        w = [rng.choice(good[k])] + [t for t in rng.sample(range(1, len(trajs) + 1), min(3, len(trajs))) if trajs[t - 1] == k]
        rng.shuffle(w)
        return w

    def look():
        u = rng.random()
        if u < 0.25:
            return dict(a='network', k=rng.randint(1, m))
        if u < 0.45:
            return dict(a='rows', k=rng.randint(1, len(trajs)))
        if u < 0.6 and docs:
            return dict(a='document', f=rng.choice(sorted(docs)))
        if paths:
            return dict(a='path', k=rng.randint(1, len(paths)))
        return dict(a='network', k=rng.randint(1, m))
    st.append(dict(a='sample', k=1, f='', i=0, again=False, maxtr=10, tend=-1))
    trajs.append(1)
    good[1].append(1)
    while len(st) < steps:
        u = rng.random()
        ready = [k for k in good if good[k]]
        if u < 0.2:
            st.append(sample())
        elif u < 0.35:
            f = rng.choice(['a', 'a', 'b', 'c'])
            ks = [rng.choice(ready) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            docs[f] = [dict(net=k, which=which(k)) for k in ks]
            st.append(dict(a='write', f=f, parts=docs[f]))
        elif u < 0.55:
            if docs and rng.random() < 0.6:
                f = rng.choice(sorted(docs))
                i = rng.randint(1, len(docs[f]))
                st.append(dict(a='load', f=f, i=i, k=docs[f][i - 1]['net'], which=[], prior=True, again=rng.random() < 0.5))
            else:
                k = rng.choice(ready)
                st.append(dict(a='load', f='', i=0, k=k, which=which(k), prior=rng.random() < 0.6, again=False))
            paths.append(st[-1]['k'])
        elif paths and u < 0.7:
            p = rng.randint(1, len(paths))
            net = sc['nets'][paths[p - 1] - 1]
            n = len(net['labels'])
            x = rng.randint(1, n)
            ps = sorted(rng.sample([y for y in range(1, n + 1) if y != x], rng.randint(0, min(n - 1, 3))))
            st.append(dict(a='estimate', k=p, form=rng.choice(['prior', 'sub', 'sub']), node=x, parents=ps))
        elif paths and u < 0.85:
            p = rng.randint(1, len(paths))
            alg = rng.choice(['ctpc', 'ctpc', 'hill', 'tabu'])
            s = dict(a='learn', k=p, alg=alg, alpha=rng.choice([5, 10]), iters=rng.choice([2, 6]), fresh=rng.random() < 0.5, known=[])
            ls = sc['nets'][paths[p - 1] - 1]['labels']
            pairs = [[a, b] for a in range(1, len(ls) + 1) for b in range(1, len(ls) + 1) if a != b]
            if pairs and rng.random() < 0.5:
                s['known'] = sorted(rng.sample(pairs, rng.randint(1, min(3, len(pairs)))))
            fresh += 1
            s['how'] = fresh if alg != 'ctpc' else s['alpha']
            st.append(s)
            if rng.random() < 0.5:
                st.append(dict(a='spurious', k=p))
        elif paths and u < 0.9:
            p = rng.randint(1, len(paths))
            n = len(sc['nets'][paths[p - 1] - 1]['labels'])
            if n > 1:
                st.append(dict(a='edit', k=p, edge=rng.sample(range(1, n + 1), 2)))
        st.append(look())
    # at the end everything is looked at
    st += [dict(a='network', k=k) for k in range(1, m + 1)] + [dict(a='rows', k=k) for k in range(1, len(trajs) + 1)]
    st += [dict(a='document', f=f) for f in sorted(docs)] + [dict(a='path', k=k) for k in range(1, len(paths) + 1)]
    sc['steps'] = st
    return sc


def run(c):
    c.model('SystemMC', cfg=c.n('SystemMC.cfg', 'SystemMC_thorough.cfg'), workers=8, expect_actions=('Grow', 'Close', 'Write', 'Load', 'Hand', 'Learn', 'Edit'))
    scs = [scenario(c.rng, c.rng.choice([12, 25, 40])) for _ in range(c.n(260, 3000))]
    c.validate('SystemTrace', c.drive('system', scs, limit=90), batch=30)
