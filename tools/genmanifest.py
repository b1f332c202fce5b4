#!/usr/bin/env python3
"""writes MANIFEST.json and spec/checks.json"""
import json,os
V='/verif'
INT='int and int64 are treated as mathematical integers (slice and index arithmetic cannot reach 2^63); all narrower types wrap exactly'
STD='the standard library functions named in trusted_base behave as their assumed contracts say; logging has no effect on results'
MEM='no data race, unsafe pointer or memory exhaustion; Go memory model for the synchronisation primitives used'
TOK='a parser is entered with its cursor inside the token list and the token list is not changed while parsing'
NIL='slices: nil and empty are not distinguished'
A2=[{'pkg':'a2l','dir':'a2l','test':'TestVerifA2L'}]
T='deductive verification (govc): contracts on the real Go functions, obligations from go/ssa, discharged by z3/cvc5'
C={}
def c(p,note,assumptions,harness=None,level='proof'):
    C[p]=dict(level=level,note=note,assumptions=assumptions,harness=harness or [])
c('P07','every fixed-parameter parser against its grammar contract, for all token streams; fully discharged',[INT,STD,TOK,NIL],A2)
c('P08','every block parser against its grammar contract (loop invariant: parsed content equals the specification of the consumed tokens); fully discharged',[INT,STD,TOK,NIL],A2)
c('P09','postcondition of every block parser: success only at its own end marker, every error propagates; fully discharged',[INT,STD,TOK,NIL],A2)
c('P10','absence of panics as an obligation at every index, slice, map and pointer operation of every parser, progress of every loop, no recursion; fully discharged',[INT,STD,TOK,MEM],A2)
c('P11','every enumeration parser and the width, type and name functions against the table of the standard; fully discharged',[INT,STD,TOK],A2)
c('P12','single-threaded module parser against its contract for all token streams; fully discharged',[INT,STD,TOK,NIL,'the module parser runs its single-threaded loop (useMultithreading false)'],A2)
NA={}
exec(open(os.path.join(V,'tools','checks_more.py')).read()) if os.path.exists(os.path.join(V,'tools','checks_more.py')) else None
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[]
for p in props:
    if p not in C: continue
    d=C[p]
    checks.append(dict(property=p,quick_cmd='python3 check.py %s'%p,thorough_cmd='VERIF_TIER=thorough python3 check.py %s'%p,technique=T,level=d['level'],
        level_note=d['note']+'. Assumes: '+'; '.join(d['assumptions'])+'. Trusts govc, go/ssa, z3/cvc5. The concrete harness that follows is a bounded cross-check and replay aid, not part of the proof'))
na=[dict(property=p,reason=NA.get(p,'no check built yet')) for p in props if p not in C]
json.dump(dict(version=1,setup_cmd='bash tools/setup.sh',checks=checks,not_applicable=na,hooks=dict(guard='none',enable='no hooks: contracts live in /verif and are checked against the unmodified source; replay harnesses go in through go test -overlay',source_commits=[])),open(V+'/MANIFEST.json','w'),indent=1)
json.dump({p:dict(level=d['level'],assumptions=d['assumptions'],harness=d['harness']) for p,d in C.items()},open(V+'/spec/checks.json','w'),indent=1)
print(len(checks),'checks',len(na),'na')
