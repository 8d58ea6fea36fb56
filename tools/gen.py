#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; never by a check)."""
import json
S='programs/hmmcl-sandbox/src/'
D,F=S+'cl_pool/mod.rs',S+'cl_pool_float/mod.rs'
DC,FC=S+'cl_pool/cl_components.rs',S+'cl_pool_float/cl_components.rs'
DM,FM=S+'cl_pool/cl_math.rs',S+'cl_pool_float/cl_math.rs'
ENG=[D,F,DC,FC,DM,FM,S+'decimal.rs']
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None,claim=True,note='',reason='',tech=''):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,state=state or [],observe=observe or [],claim=claim,note=note,reason=reason,tech=tech))
HIST='every sequence of deposits, withdrawals, swaps in both directions, oracle readings and crash/recovery points, for every pool configuration (start tick, tick spacing, fee rate, HMM constant) and every order in which concurrent clients\' requests arrive'
TEST='The tests replay a handful of fixed scripts (one provider or two, a few round amounts, one start price) and compare against stored numbers; '
exec(open(__file__.replace('gen.py','props_engine.py')).read())
exec(open(__file__.replace('gen.py','props_ledger.py')).read())
exec(open(__file__.replace('gen.py','props_na.py')).read())
root=__file__.rsplit('/tools/',1)[0]
with open(root+'/properties.jsonl','w') as f:
    for p in P:
        a={'files':p['files'],'mechanism':[{'name':n,'where':w} for n,w in p['mech']]}
        if p['state']: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in p['state']]
        if p['observe']: a['observe_at']=p['observe']
        a['hook_needed']=None
        f.write(json.dumps({'id':p['id'],'title':p['title'],'statement':p['statement'],'quantifier':{'over':p['over'],'text':p['text']},'why_tests_cant':p['why'],'anchors':a})+'\n')
m={'version':1,'setup_cmd':'bash check.sh build',
 'checks':[{'property':p['id'],'quick_cmd':f"bash check.sh {p['id']}",'thorough_cmd':f"VERIF_TIER=thorough bash check.sh {p['id']}",
   'technique':p['tech'],'level':'exploration','level_note':p['note']} for p in P if p['claim']],
 'not_applicable':[{'property':p['id'],'reason':p['reason']} for p in P if not p['claim']],
 'notes':'No hooks in /repo: the engines, the on-chain entry point and the bitmap are reached through their public interfaces. `sim/target/debug/hmmcl-sim replay <file>` re-executes a replay file. tools/gen.py regenerates this file and properties.jsonl.'}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
open(root+'/MANIFEST.json','a').write('\n')
