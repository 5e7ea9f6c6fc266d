from checks import ctpc as S
def run(c):
    env = S.tables(c, 110)
    for m in ('IndepMC', 'IndepMC3'):
        c.model('IndepMC', cfg=c.n(m + '.cfg', m + '_thorough.cfg'), workers=8, env=env, expect_actions=('JudgedIndependent', 'JudgedDependent'))
    tr = c.drive('ctpc', [S.real(c.rng, 'tests') for _ in range(c.n(200, 2700))] + [S.scarce(c.rng) for _ in range(c.n(60, 600))] + [S.destinations(c.rng) for _ in range(c.n(100, 1500))], limit=90)
    a = [e['ans'] for t in tr if t for e in t['ev'] if e['a'] == 'test']
    c.extra['verdicts'] = dict(independent=sum(a), dependent=len(a) - sum(a))
    c.validate('IndepTrace', tr, batch=20, env=env)
