import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={}
exec(open('/verif/harness/manifest_info.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in INFO:
        t,n=INFO[i]
        checks.append({"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%i,"technique":t,"level":"model_checking","level_note":n})
    else: na.append({"property":i,"reason":"check under construction"})
json.dump({"version":1,"setup_cmd":"python3 setup.py","checks":checks,"not_applicable":na,"notes":"TLA+ specification in spec/, checked with TLC; conformance by trace validation in both directions. See DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
