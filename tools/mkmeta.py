#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand when a claim changes)."""
import json,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,claim=None,na=None,state=None):
    P.append(dict(id=id,claim=claim,na=na,j={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],**({'state':[{'name':a,'meaning':b,'where':c} for a,b,c in state]} if state else {}),'observe_at':observe,'hook_needed':None}}))
exec(open(H+'/tools/props.py').read())
with open(H+'/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p['j'])+'\n')
checks=[];na=[]
for p in P:
    if p['claim']:
        tech,note=p['claim'][:2]; lvl=p['claim'][2] if len(p['claim'])>2 else 'proof'
        checks.append({'property':p['id'],'quick_cmd':'python3 run.py %s'%p['id'],'thorough_cmd':'python3 run.py %s --tier thorough'%p['id'],'technique':tech,'level':lvl,'level_note':note})
    else: na.append({'property':p['id'],'reason':p['na']})
M={'version':1,'setup_cmd':'python3 tools/selftest.py','hooks':{'guard':'none','enable':'no hooks: the checks compile /repo sources unmodified, from harness files under /verif that include them','source_commits':[]},
 'checks':checks,'not_applicable':na,'notes':'see DESIGN.md; known_findings.txt lists the defects found and repaired'}
json.dump(M,open(H+'/MANIFEST.json','w'),indent=1)
import sys
for p in P:
    assert len(p['j']['title'])<=80,p['id']
    assert len(re.findall(r'[.;](?:\s|$)',p['j']['statement']))<=4,p['id']
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p['j'],sch)
    jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:',len(P),'properties,',len(checks),'claimed')
except ImportError: print('no jsonschema')
