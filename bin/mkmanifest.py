import json,sys
sys.path.insert(0,'/verif')
from vf.config import PROPS
T={}
exec(open('/verif/vf/techniques.py').read())
checks=[]
for p in sorted(PROPS):
    tech,note=TECH[p]
    checks.append(dict(property=p,quick_cmd='python3 check.py %s --tier quick'%p,thorough_cmd='python3 check.py %s --tier thorough'%p,
      evidence_file='evidence/%s.json'%p,technique=tech,level='exploration',level_note=note))
allp=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na=[dict(property=p,reason='check not built yet') for p in allp if p not in PROPS]
json.dump(dict(version=1,setup_cmd='python3 setup.py',hooks=dict(guard='VF_HOOKS',enable='no hooks are needed: the checks compile /repo unchanged, together with native/probe.cc, which reads the node store through its own headers',source_commits=[]),
  checks=checks,not_applicable=na,notes='exit 2 means the check could not decide (build failure or time limit). Every check compiles /repo\'s current tree into .build/ and removes it.'),open('/verif/MANIFEST.json','w'),indent=1)
