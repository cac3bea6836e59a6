#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS=[]; CHECKS=[]; NA=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,note=None,na=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe: a['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    PROPS.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
    if na: NA.append(dict(property=id,reason=na))
    else: CHECKS.append(dict(property=id,quick_cmd=f'python3 sim/check.py {id}',thorough_cmd=f'python3 sim/check.py {id} --thorough',technique='deterministic simulation with fault injection (seeded schedules and fault sequences over the real code)',level='exploration',level_note=note or 'Seeded search; a clean batch is evidence for the explored executions, not proof. Sequentially consistent memory is simulated; unordered conflicting accesses are reported as races.'))
exec(open(os.path.join(V,'tools','table.py')).read())
open(os.path.join(V,'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in PROPS))
json.dump(dict(version=1,setup_cmd='python3 sim/setup.py',hooks=dict(guard='none',enable='no hooks in /repo: instrumentation is added by the compiler (-fsanitize=thread calls answered by sim/simrt.cpp) and by symbol wrapping at link time',source_commits=[]),checks=CHECKS,not_applicable=NA),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
try:
    import jsonschema
    for p in PROPS: jsonschema.validate(p,json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open(os.path.join(V,'MANIFEST.json'))),json.load(open('/root/.vp/MANIFEST.schema.json'))); print('valid')
except ImportError: pass
