import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import sys
sys.path.insert(0,'/verif')
from sa import about
from sa import props as P
NA=json.load(open('/verif/not_applicable.json')) if False else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in P._JOBS:
        checks.append({"property":i,"quick_cmd":f"python3 -m sa.run {i} --tier quick","thorough_cmd":f"python3 -m sa.run {i} --tier thorough",
          "technique":"static analysis: "+P.TECH.get(i,"abstract interpretation of the package's source, compared with a reference model in every partition of an abstract input"),
          "level":"other","level_note":P.NOTES.get(i,P.NOTE+" Bounds: "+about.BOUNDS[i])})
    else:
        na.append({"property":i,"reason":P.NOT_APPLICABLE.get(i,"not built yet: the check for this property is still being written")})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
