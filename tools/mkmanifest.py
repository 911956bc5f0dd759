import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0,V+'/tools/lib')
from props import P
titles={json.loads(l)["id"]:json.loads(l)["title"] for l in open(V+'/properties.jsonl')}
ch=[]
NA={}
for k,(slug,tags) in P.items():
    if k in NA: continue
    ch.append({"property":k,"quick_cmd":"./check %s"%k,"thorough_cmd":"./check %s --tier thorough"%k,"evidence_file":"evidence/%s.json"%k,
     "technique":"contract-based deductive verification of the extracted Rust functions (Verus/Z3)",
     "level":"proof","level_note":"Contracts of the property's functions discharged by Verus on text extracted from /repo on every run; composition over servers and functions outside the verifier's subset cross-checked by bounded random schedules of the real crate (labelled, not counted as proof). Assumptions are listed in the evidence file."})
man={"version":1,"setup_cmd":"bash setup.sh","checks":ch,
 "not_applicable":[{"property":"C19","reason":"liveness over infinite fair schedules: function contracts state safety of single calls; Verus has no fairness or temporal operators over message schedules, so no contract within reach expresses it"}]+[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo; only fix: commits. Known findings and fixes: KNOWN_FINDINGS.txt"}
json.dump(man,open(V+'/MANIFEST.json','w'),indent=1)
