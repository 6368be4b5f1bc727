"""Writes MANIFEST.json from the table of built checks."""
import json,os
R=os.path.dirname(os.path.abspath(__file__))
T='symbolic execution of the compiled IR and inline assembly; obligations decided by z3 (integer polynomial arithmetic with quotient variables / bit-vectors), counterexamples replayed natively'
N={}
exec(open(os.path.join(R,'claims.py')).read())
ids=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
ch=[{'property':i,'quick_cmd':f'python3-vt run.py {i}','thorough_cmd':f'VERIF_TIER=thorough python3-vt run.py {i}','evidence_file':f'evidence/{i}.json','technique':N[i].get('technique',T),'level':'model_checking','level_note':N[i]['note']} for i in ids if i in N]
na=[{'property':i,'reason':NA.get(i,'check not built yet')} for i in ids if i not in N]
m={'version':1,'setup_cmd':'python3-vt -c "import z3"','checks':ch,'not_applicable':na,'notes':'No hooks: the checks read the sources as they are. See DESIGN.md.'}
json.dump(m,open(os.path.join(R,'MANIFEST.json'),'w'),indent=1)
