#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json (run by hand when the claimed list changes)."""
import json
COMMON=("Every obligation govc generates from the named functions' SSA in /repo's current tree must be proved by an SMT solver, "
 "for all inputs and all loop iterations. Trusted: govc itself, the Go SSA front end, the solvers, and the assumed contracts of dependencies listed in the evidence file. "
 "Machine integers wrap explicitly; termination and data races are out of scope.")
CLAIMS={
'A01':'','A02':'','A03':'','A04':'','A05':'','A06':'','A07':'','A08':'','A09':'','K01':'','K02':'','K03':'','K04':'','K05':'','K06':'','K07':'','K08':'','K10':'','K11':'','K12':'','K14':'','K15':'','K18':'','S01':'','S02':'','S03':'','S04':'','S05':'','S06':'','S07':'','S08':'','S09':'','S10':'','S11':'',
}
NA={
}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    if p in CLAIMS:
        checks.append(dict(property=p,quick_cmd=f'./run.sh check {p}',thorough_cmd=f'VERIF_TIER=thorough ./run.sh check {p}',
          technique='contracts on the real Go functions, verification conditions from their SSA discharged by SMT (govc + z3/cvc5)',
          level='proof',level_note=(CLAIMS[p]+' ' if CLAIMS[p] else '')+COMMON))
na=[dict(property=p,reason=NA.get(p,'No check yet: contracts for the functions it depends on are not written.')) for p in props if p not in CLAIMS]
m=dict(version=1,setup_cmd='./run.sh setup',checks=checks,not_applicable=na,
 notes='DESIGN.md describes the method. Contracts are in specs/*.spec and are matched to the functions of /repo by name on every run.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),len(na))
