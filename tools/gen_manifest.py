"""Writes /verif/MANIFEST.json from the properties and the units present in proofs/."""
import json, glob, re, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={'C17':'the expression and event parsers are flex/bison output: table-driven automata whose transition arrays are the program, so a contract stating the grammar would need an invariant over LALR tables that no deductive verifier at hand (CBMC contracts) can express or discharge, and the grammar sources are not what runs'}
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
units={}
for f in sorted(glob.glob(R+'/proofs/*.c')):
    t=open(f).read()
    m=re.search(r'//@ props (.*)',t)
    if not m: continue
    what=(re.search(r'//@ what (.*)',t) or [None,''])[1]
    kind=(re.search(r'//@ kind (.*)',t) or [None,'proof'])[1]
    for p in m.group(1).split(): units.setdefault(p,[]).append((os.path.basename(f)[:-2],kind,what))
NOTE=json.load(open(R+'/tools/level_notes.json'))
checks=[]
for p in props:
    i=p['id']
    if i in NA or i not in units: continue
    pr=[u for u in units[i] if u[1]=='proof']; bd=[u for u in units[i] if u[1]!='proof']
    note='Proved by contract for all inputs: '+'; '.join('%s (%s)'%(u[0],u[2]) for u in pr)+'.'
    if bd: note+=' Bounded stand-ins, not counted as proved: '+'; '.join('%s (%s)'%(u[0],u[2]) for u in bd)+'.'
    if i in NOTE: note+=' '+NOTE[i]
    checks.append(dict(property=i,quick_cmd='python3 tools/run.py check %s --tier quick'%i,thorough_cmd='python3 tools/run.py check %s --tier thorough'%i,
      technique='contract-based deductive verification: CBMC code contracts (goto-instrument --dfcc) on the functions of /repo/src, loop invariants inserted mechanically, obligations discharged by SAT / cvc5; a native sanitizer search replays or looks for a failing input',
      level='proof',level_note=note))
na=[dict(property=p['id'],reason=NA.get(p['id'],'no contract unit for it yet')) for p in props if p['id'] in NA or p['id'] not in units]
m=dict(version=1,setup_cmd='true',checks=checks,not_applicable=na,
 hooks=dict(guard='BETREE_VERIF_UNUSED',enable='no hooks were needed: contracts are attached from /verif/proofs and loop contracts are inserted into a scratch copy of the sources on every run',source_commits=[]),
 notes='See DESIGN.md. tools/run.py is the only driver.')
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)
import sys
try:
    import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print([c['property'] for c in checks],[n['property'] for n in na])
