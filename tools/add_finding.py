"""add_finding.py PROPERTY COMMIT TEXT : append a fixed finding."""
import json, sys
p='/verif/known_findings.json'; d=json.load(open(p))
l=d[next(iter(k for k in d if isinstance(d[k],list)))]
n=max(int(f['id'][1:]) for f in l)+1
l.append({"id":f"F{n:02d}","property":sys.argv[1],"status":"fixed","entry":f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
