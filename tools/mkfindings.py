"""Regenerates known_findings.json's "fixed" list from the fix commits in /repo (run by hand, never by a check)."""
import json, subprocess, os
PROP = {
 "c799173":"C02","a133502":"C04","dd357bc":"C04","2b97123":"C04","c2437e7":"C06","070d1d9":"C09","f22da02":"C07","a252ab3":"C08",
 "2446e48":"C12","b66fef9":"C12","de726ae":"C12","2ebc08b":"C13","8da0838":"C14","5606a75":"C18","0baa697":"C18","a5a5e86":"C16",
 "4223b0b":"C16","2e29103":"C19","a3d57d5":"C20","ae6883d":"C20","758e96f":"C20","6de9370":"C23","b7285e6":"C23","625ac1d":"C20",
 "aad3d9e":"C20","98fc4c1":"C23","9a56279":"C26","f6f230f":"C25","0a7b425":"C25","d11dcc6":"C25","4fb2086":"C25","dda384f":"C26",
 "49311e5":"C26","57b9a5f":"C26","6450939":"C27","0d51523":"C27","a5fc012":"C27","0fafde2":"C29","fecda97":"C31",
 "71c4135":"C32","c794d6e":"C32","48b53e9":"C33"}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","ba5e8fc..HEAD"],capture_output=True,text=True).stdout
fixed=[]
for l in log.splitlines():
    h, s = l.split(" ",1)
    if not s.startswith("fix:"): continue
    fixed.append(f"fixed: property={PROP[h[:7]]} {h} {s[5:]}")
p=os.path.join(here,"known_findings.json")
old=json.load(open(p)) if os.path.exists(p) else {"findings":[]}
old["fixed"]=fixed
json.dump(old,open(p,"w"),indent=1); open(p,"a").write("\n")
print(len(fixed))
