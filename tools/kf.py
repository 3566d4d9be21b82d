import json,sys
# usage: kf.py PROP SIG COMMIT WHAT   adds a fixed entry
p,s,c,w=sys.argv[1:5]
L=json.load(open('/verif/known_findings.json'))
L.append({"property":p,"sig":s,"status":"fixed","commit":c,"what":"fixed: property=%s %s %s"%(p,c,w)})
open('/verif/known_findings.json','w').write("[\n"+",\n".join(" "+json.dumps(x) for x in L)+"\n]\n")
