#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'tools'))
import props
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
checks=[dict(property=i,quick_cmd='python3 tools/vp.py check %s quick'%i,thorough_cmd='python3 tools/vp.py check %s thorough'%i,
  technique='bounded symbolic execution of the real code (LLVM IR) with SMT (Z3)',level='model_checking',
  level_note=props.PROPS[i].get('note') or 'Every value within the stated bounds: %s. Outside: %s.'%(b if isinstance(b:=props.PROPS[i]['bounds'],str) else b('quick'),props.PROPS[i].get('outside','nothing stated')))
  for i in ids if i in props.PROPS]
na=[dict(property=i,reason=props.NA.get(i,'not built yet')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1,setup_cmd='python3 tools/vp.py setup',hooks=dict(guard='none',enable='no hooks are needed: the sources are compiled unchanged',source_commits=[]),checks=checks,not_applicable=na,
  notes='See DESIGN.md. fix: commits in /repo are listed in known_findings.json.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
