import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notapp=json.load(open('/verif/tools/not_applicable.json'))
claimed=json.load(open('/verif/tools/claimed.json'))
checks=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"contract-based deductive verification (weakest-precondition style symbolic execution of the Go SSA, inductive loop invariants, SMT)",
          "level":"proof","level_note":claimed[i]})
na=[{"property":p['id'],"reason":notapp.get(p['id'],"machinery not built yet")} for p in props if p['id'] not in claimed]
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
