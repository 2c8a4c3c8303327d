#!/usr/bin/env python3
# python3 gen/manifest.py: writes MANIFEST.json from properties.jsonl and the table below.
import json,os,re
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.dirname(here)
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
src=''
for f in sorted(os.listdir(root+'/tool')):
    if f.endswith('.go'): src+=open(root+'/tool/'+f).read()
tech=dict(re.findall(r'properties\["(C\d+)"\] = property\{"([^"]*)"',src))
notes=json.load(open(here+'/notes.json'))
na=json.load(open(here+'/not_applicable.json'))
checks=[];nas=[]
for p in props:
    i=p['id']
    if i in tech:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh %s -thorough"%i,
          "technique":"static analysis: "+tech[i],"level":"other",
          "level_note":notes.get(i,"Decides the structural conditions named in the technique on every path of the current source; trusts go/types, go/ssa and the analyser.")})
    else:
        nas.append({"property":i,"reason":na.get(i,"Not yet decided by this framework.")})
m={"version":1,"setup_cmd":"cd tool && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor go vet . ./engine && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor go build -o /dev/null .",
 "checks":checks,"not_applicable":nas,
 "notes":"One analyser (tool/) loads /repo's source, type-checks it and summarises functions path by path over SSA; each check runs the rules of one property. known-findings.txt lists findings and repairs."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(nas),'not')
