#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the claims below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in claims:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"contract-based deductive verification (weakest preconditions over go/ssa, SMT)","level":"proof","level_note":claims[i]})
    else:
        na.append({"property":i,"reason":notyet.get(i,"no check has been built for it yet")})
m={"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"none","enable":"no hooks: contracts are kept in /verif/contracts and applied to /repo's unmodified source","source_commits":[]},
 "checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
