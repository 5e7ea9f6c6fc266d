import gen
from checks import search


def scenario(rng):
    n = rng.randint(1, 5) if rng.random() < 0.93 else rng.randint(8, 12)
    ds = gen.network_data(rng, n, maxrows=20, maxcard=2) if n < 6 else search.tiny(n)
    if n > 5 and rng.random() < 0.5:
        ds['cols'] = ['n%d' % i for i in rng.sample(range(40), n)]
        ds['vars'] = [[l, 2] for l in ds['cols']]
    has = rng.random() < 0.6 and n > 1
    while has and not ds['edges']:
        ds['edges'] = gen.edges(rng, ds['cols'], None if n < 6 else 0.1)
    num = {l: i + 1 for i, l in enumerate(ds['cols'])}
    kinds = [rng.choice(['ctpc', 'ctpc', 'hill', 'tabu', 'real'] if n < 6 else ['ctpc', 'hill']) for _ in range(rng.choice([1, 1, 2]))]
    p = rng.choice([0, 0.2, 0.5, 1]) if n < 6 else rng.choice([0.05, 0.15])
    pairs = [[a, b] for a in num.values() for b in num.values() if a != b]
    steps, learned = [], set(k for k in range(1, len(kinds) + 1) if rng.random() < 0.2)
    if learned and rng.random() < 0.7:          # looked at before anything is learned
        steps += [dict(a=rng.choice(['adjacency', 'saved', 'spurious']), k=rng.choice(sorted(learned))) for _ in range(2)]
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(1, len(kinds))
        learned.add(k)
        steps.append(dict(a='learn', k=k, want=[e for e in pairs if rng.random() < p], iters=rng.choice([0, 3, 30])))
        for _ in range(rng.randint(2, 5)):
            steps.append(dict(a=rng.choice(['adjacency', 'saved', 'spurious']), k=rng.choice(sorted(learned))))
    return dict(meta=dict(n=n, prior=[[num[a], num[b]] for a, b in ds['edges']], ests=len(kinds)), ds=ds, hasprior=has, kinds=kinds,
                steps=steps, seed=rng.randrange(10 ** 6))


def run(c):
    c.model('ViewsMC', cfg=c.n('ViewsMC.cfg', 'ViewsMC_thorough.cfg'), workers=8, expect_actions=('Learn', 'Query'))
    c.validate('ViewsTrace', c.drive('views', [scenario(c.rng) for _ in range(c.n(350, 5000))], limit=60), batch=100)
