#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and from what the harness implements (facets registered)."""
import json,subprocess,sys,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl') if l.strip()]
src=''.join(open(here+'/harness/'+f).read() for f in os.listdir(here+'/harness') if f.endswith('.go'))
tech=json.load(open(here+'/tools/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if 'reg("%s"'%i in src:
        checks.append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,
          "technique":"property-based testing: "+tech[i][0],"level":"exploration","level_note":tech[i][1]+" Exploration only: nothing is proved beyond the generated cases; trusts the independent readers and models in /verif/harness."})
    else:
        na.append({"property":i,"reason":"No check yet: work in progress."})
m={"version":1,"setup_cmd":"./run.sh --setup","checks":checks,"not_applicable":na,
   "notes":"One Go harness (/verif/harness, rapid v1.3.0), built by run.sh from /repo's working tree for every check. No hooks in /repo: only its public API is used. Replay a failure with ./run.sh --replay FILE."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks;',[x['property'] for x in na],'left')
