import itertools
import gen
from checks import ctpc as S
SEP = [['A', 'B', 'A,B', 'A:B', 'B,A', 'A B', 'AB', "A', 'B", '', 'a', 'b', 'ab'], ['1', '2', '12', '21', '3', '13', '123', '1,2', '0', '01', '10', '100'],
       ['X%d' % i for i in range(12)]]


def long(rng):
    """Long histories over many keys."""
    ops, n = [], 0
    far = rng.random() < 0.5
    for _ in range(rng.choice([60, 300, 500])):
        key = sorted(rng.sample(range(1, 13), rng.choice([0, 1, 1, 2, 2, 3, 5])))
        u = rng.random()
        if u < (0.004 if far else 0.03):
            ops.append(dict(a='clear', key=[]))
        elif u < 0.5:
            n += 1
            ops.append(dict(a='put', key=key, val=n))
        else:
            old = [o['key'] for o in ops[-rng.choice([5, 400]):] if o['a'] == 'put']
            ops.append(dict(a='find', key=rng.choice(old) if old and rng.random() < 0.7 else key))
    return dict(ops=ops, labels=rng.choice(SEP), seed=rng.randrange(10 ** 6), spoil=False)


def full(rng):
    """Well over a thousand entries, cleared, and looked for again."""
    keys = [sorted(k) for r in range(1, 6) for k in itertools.combinations(range(1, 13), r)]
    rng.shuffle(keys)
    keys = keys[:rng.choice([1300, 1500])]
    ops = [dict(a='put', key=k, val=i + 1) for i, k in enumerate(keys)]

    def look(ks):
        return [dict(a='find', key=k) for k in ks]
    some = [keys[0], keys[1], keys[len(keys) // 2], keys[-2], keys[-1]] + rng.sample(keys, 12)
    ops += look(some) + [dict(a='clear', key=[])] + look(some) + [dict(a='put', key=k, val=5000 + i) for i, k in enumerate(some[2:6])] + look(some)
    return dict(ops=ops, labels=rng.choice(SEP), seed=rng.randrange(10 ** 6), spoil=False)


def run(c):
    c.model('CacheMC', cfg=c.n('CacheMC.cfg', 'CacheMC_thorough.cfg'), workers=8, expect_actions=('Put', 'Find', 'Clear'))
    bs = c.behaviours('CacheMC', 'CacheSim.cfg', c.n(120, 1500), 30)
    scs = [dict(ops=b, labels=gen.labels(c.rng, 3), seed=c.rng.randrange(10 ** 6), spoil=c.rng.random() < 0.5) for b in bs]
    scs += [long(c.rng) for _ in range(c.n(24, 300))] + [full(c.rng) for _ in range(c.n(3, 20))]
    c.validate('CacheTrace', c.drive('cache', scs, limit=30), batch=40)
    env = S.tables(c, 110)
    c.model('IndepMC', cfg='IndepMC3.cfg', workers=8, env=env, expect_actions=('JudgedIndependent', 'JudgedDependent'))
    c.validate('IndepTrace', c.drive('ctpc', [S.real(c.rng, 'history') for _ in range(c.n(160, 2500))], limit=90), batch=20, env=env)
