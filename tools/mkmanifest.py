"""Regenerates /verif/MANIFEST.json (author's tool)."""
import json,os
H='/verif'
ids=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
NA={}
checks=[]
for i in ids:
    if i in NA: continue
    pf=os.path.join(H,'proofs',i+'.py')
    lvl='exploration'; note='Bounded stand-in, not a proof: executable contracts run against the real code on exhaustive small and seeded random inputs.'; tech='executable contracts (pre/postconditions against an independent definition), bounded'
    if os.path.exists(pf):
        ns={}
        src=open(pf).read()
        import ast
        for n in ast.parse(src).body:
            if isinstance(n,ast.Assign) and n.targets[0].id in('LEVEL','NOTE','TECHNIQUE'):
                ns[n.targets[0].id]=ast.literal_eval(n.value)
        lvl=ns.get('LEVEL','proof'); note=ns['NOTE']; tech=ns.get('TECHNIQUE','contract-based deductive verification of the real functions (VC generation from source, z3/cvc5) plus bounded cross-check')
    checks.append(dict(property=i,quick_cmd=f'python3-vt run.py {i}',thorough_cmd=f'python3-vt run.py {i} --thorough',technique=tech,level=lvl,level_note=note))
m=dict(version=1,setup_cmd='python3-vt tools/setup.py',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='see DESIGN.md; known_findings.json lists recorded defects and repairs')
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
