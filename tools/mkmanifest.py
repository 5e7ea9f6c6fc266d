#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a module in harness/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {
 'C01': ('Importing', 'ImportingTrace'), 'C02': ('Importing', 'ImportingTrace'), 'C03': ('Importing', 'ImportingTrace'),
 'C04': ('Stats', 'StatsTrace'), 'C05': ('Stats', 'StatsTrace'), 'C06': ('Stats', 'StatsTrace'),
 'C07': ('FamScore', 'ScoreTrace'), 'C08': ('FamScore, Stats', 'ScoreTrace'),
 'C09': ('Search', 'SearchTrace'), 'C10': ('Search', 'SearchTrace'),
 'C11': ('Ctpc', 'CtpcTrace'), 'C12': ('IndepTest, Stats', 'IndepTrace'), 'C13': ('CacheSpec, IndepTest', 'CacheTrace, IndepTrace'),
 'C14': ('Pool, Search, Ctpc', 'PoolTrace, SearchTrace, CtpcTrace'), 'C15': ('Views', 'ViewsTrace'),
 'C16': ('NetGen', 'NetGenTrace'), 'C17': ('NetGen', 'NetGenTrace'),
 'C18': ('Sampling', 'SamplingTrace'), 'C19': ('Sampling', 'SamplingTrace'), 'C20': ('MultiSample, Sampling', 'MultiTrace, SamplingTrace'),
 'C21': ('Exchange, Importing, Sampling', 'ExchangeTrace, SamplingTrace'), 'C22': ('Graph', 'GraphTrace'),
 'C23': ('Search, Ctpc, Pool', 'PoolTrace'), 'C24': ('System', 'SystemTrace'), 'C25': ('Recovery, Ctpc, Search', 'RecoveryTrace'), 'C26': ('Repro', 'ReproTrace'), 'C27': ('Fault, Pool', 'FaultTrace'),
}
NOTE = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(here, 'harness', 'checks', i.lower() + '.py')):
        d, t = SPECS[i]
        checks.append(dict(
            property=i, quick_cmd='/opt/venv/bin/python harness/check.py %s quick' % i,
            thorough_cmd='/opt/venv/bin/python harness/check.py %s thorough' % i,
            technique='TLA+ specification (%s) model-checked with TLC; traces of the code validated against it (%s)' % (d, t),
            level='model_checking', level_note=NOTE.get(i, NOTE[''])))
    else:
        na.append(dict(property=i, reason='not built yet: its specification and conformance check are the next step'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python harness/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: every check drives the public API of /repo\'s working tree. See DESIGN.md.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
