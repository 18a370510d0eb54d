#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/tools/notes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i not in notes: continue
    n=notes[i]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":n["technique"],"level":"exploration","level_note":n["level_note"]})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":p['id'],"reason":"check not built yet"} for p in props if p['id'] not in notes]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
