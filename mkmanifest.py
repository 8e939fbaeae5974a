"""Writes MANIFEST.json from the plans (run by hand when the set of checks changes)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vmon.plans import PLANS
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
hook = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], text=True).split()
checks, na = [], []
for p in props:
    c = p['id']
    if c not in PLANS:
        na.append(dict(property=c, reason='check not built yet'))
        continue
    pl = PLANS[c]
    checks.append(dict(property=c, quick_cmd='/opt/venv/bin/python run.py ' + c,
                       thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run.py ' + c,
                       evidence_file='evidence/%s.json' % c,
                       technique=pl['technique'], level=pl['level'], level_note=pl['note']))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import vmon.plans"',
         hooks=dict(guard='NODE_CACHE_MAX_SIZE (C preprocessor define; unset = original value)',
                    enable='run.py compiles pvectorcmodule.c with -DNODE_CACHE_MAX_SIZE=0 for the asan0/cache0 builds; all other builds leave it unset',
                    source_commits=hook),
         checks=checks, not_applicable=na,
         notes='All checks are runtime monitors run by run.py; replay a violation with run.py --replay FILE. known_findings.json lists known findings and fixed defects.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
