from checks import pool


def run(c):
    r = c.rng
    c.model('CtpcMC', cfg=c.n('CtpcMC.cfg', 'CtpcMC_thorough.cfg'), workers=8)
    c.model('SearchMC', cfg=c.n('SearchMC.cfg', 'SearchMC_thorough.cfg'), workers=8)
    c.validate('PoolTrace', c.drive('pool', [pool.known(r) for _ in range(c.n(220, 3000))], limit=80, procs=6), batch=60)
