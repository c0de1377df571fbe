import json,sys
sys.path.insert(0,'/verif/bin'); import suites
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
titles={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
NA={}
checks=[]; na=[]
for i in ids:
    if i in suites.PROPS:
        checks.append(dict(property=i, quick_cmd="bin/check %s quick"%i, thorough_cmd="bin/check %s thorough"%i, technique=suites.PROPS[i].get("tech",suites.TECH), level="model_checking",
          level_note=suites.PROPS[i].get("note", suites.NOTE)))
    else: na.append(dict(property=i, reason=NA.get(i,"not built yet")))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), open('/verif/MANIFEST.json','w'), indent=1)
