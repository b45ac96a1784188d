# Builds MANIFEST.json from the registry of checks (sa/registry.py) and properties.jsonl.
import json,sys
sys.path.insert(0,'/verif')
try:
    from sa.registry import CHECKS, NA
except ImportError:
    CHECKS,NA={}, {}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for pid in props:
    if pid in CHECKS:
        c=CHECKS[pid]
        checks.append(dict(property=pid,quick_cmd=f'/opt/venv/bin/python -m sa.run {pid}',thorough_cmd=f'/opt/venv/bin/python -m sa.run {pid} --thorough',
            technique=c['technique'],level='other',level_note=c['note']))
    else:
        na.append(dict(property=pid,reason=NA.get(pid,'no check built yet')))
json.dump(dict(version=1,setup_cmd='/opt/venv/bin/python -m sa.selftest' if CHECKS else 'true',checks=checks,not_applicable=na,
   notes='Static analysis only: every check parses the current sources of /repo (AST), builds value graphs / effect logs by abstract interpretation, and never imports or runs them.'),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
