import json,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
CODEC={'C01','C02','C03','C04','C05','C08','C09','C29'}
TECH={}
NOTE={}
exec(open(V+'/tools/checks.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in TECH:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":TECH[i],"level":"exploration","level_note":NOTE[i]})
    else:
        na.append({"property":i,"reason":"no check yet"})
m={"version":1,"setup_cmd":"cd harness && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly go vet ./wire ./gen ./prop","checks":checks,"not_applicable":na,
 "notes":"Harness in /verif/harness (Go module with a replace directive onto /repo). check.sh builds a test binary from /repo's working tree and runs one property. replay: ./check.sh replay <file>."}
open(V+'/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
print(len(checks),len(na))
