import json,sys,subprocess
p='/verif/known_findings.json'; k=json.load(open(p))
pid,iid,text=sys.argv[1:4]
h=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
k.append({"status":"fixed","property":pid,"id":iid,"text":"fixed: property=%s %s %s"%(pid,h,text)})
json.dump(k,open(p,'w'),indent=1)
