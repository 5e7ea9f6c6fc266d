from checks import pool


def run(c):
    c.model('PoolMC', cfg=c.n('PoolMC.cfg', 'PoolMC_thorough.cfg'), workers=8, expect_actions=('Take', 'Done', 'Collect', 'Again'))
    r = c.rng
    scs = [pool.modes(r) for _ in range(c.n(70, 900))] + [pool.modes(r, seq=True) for _ in range(c.n(40, 500))]
    scs += [pool.shadowed(r) for _ in range(c.n(80, 800))]
    c.validate('PoolTrace', c.drive('pool', scs, limit=80, procs=4), batch=60)
    c.validate('SearchTrace', c.drive('pool', [pool.asked(r) for _ in range(c.n(120, 1500))], limit=60, procs=4), batch=60)
    c.validate('CtpcTrace', c.drive('pool', [pool.tests(r) for _ in range(c.n(80, 800))], limit=60, procs=4), batch=60)
