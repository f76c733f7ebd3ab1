#!/usr/bin/env python3
# Writes MANIFEST.json from the claims below and properties.jsonl.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
D="contract-based deductive verification of the Go source (govc: symbolic execution of the AST of /repo against /verif/contracts, ring reasoning and z3)"
S="; failed obligations are replayed by a seeded search on the real code"
claims={
 "P01":("proof",D+S,"every Fq operation under contract for all integers; loops by invariants over symbolic sums; termination of the loops assumed except where a variant is given"),
 "P07":("proof",D+S,"every gfP2/gfP6/gfP12 operation under contract, all alias patterns of receiver and operands, pool ownership tracked; non-degeneracy of the norms and primality of P are assumed mathematical facts"),
}
import importlib.util,os
if os.path.exists('/verif/claims.json'):
    for k,v in json.load(open('/verif/claims.json')).items(): claims[k]=tuple([v[0],v[1].replace('@D',D).replace('@S',S),v[2]])
na_default="not claimed yet: contracts for this part are still being written"
na=json.load(open('/verif/notapplicable.json')) if os.path.exists('/verif/notapplicable.json') else {}
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],"notes":"Every check rebuilds the verifier from /verif/govc and reads /repo's current source. See DESIGN.md."}
for p in props:
    i=p['id']
    if i in claims:
        l,t,n=claims[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough","evidence_file":f"/verif/evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,na_default)})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
