from checks import ctpc as S
def run(c):
    c.model('CtpcMC', cfg=c.n('CtpcMC.cfg', 'CtpcMC_thorough.cfg'), workers=8, expect_actions=('Test', 'Level', 'End'))
    scs = [S.scripted(c.rng) for _ in range(c.n(500, 6000))] + [S.scripted(c.rng, 7, 6) for _ in range(c.n(16, 200))]
    scs += [S.scripted(c.rng, 8, 8, ['pick']) for _ in range(c.n(5, 40))]
    scs += [S.wide(c.rng) for _ in range(c.n(24, 160))]
    c.rng.shuffle(scs)
    tr = c.drive('ctpc', scs, limit=60)
    c.extra['scripted_tests_logged'] = sum(1 for t in tr if t for e in t['ev'] if e['a'] == 'test')
    c.validate('CtpcTrace', tr, batch=100)
    env = S.tables(c, 110)
    c.validate('IndepTrace', c.drive('ctpc', [S.real(c.rng, 'learn') for _ in range(c.n(100, 1500))], limit=90), batch=20, env=env)
