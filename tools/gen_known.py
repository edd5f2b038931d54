#!/usr/bin/env python3
# known_findings.json from the fix commits of /repo (subject lines) and the property each was found by.
import json,subprocess,os
PROP={"c69fbb7":"C01","79da8bb":"C02","c311288":"C20","fbdb454":"C20","76388ea":"C18","6c3d97d":"C24","d044293":"C24","4f0972e":"C24","81a4f55":"C24","b66caf1":"C12","a07ab2e":"C07","4241bf9":"C19","46cab75":"C13","908c982":"C18","54a3e8a":"C03","8b230b9":"C13","063da7a":"C04","5177341":"C17","a0a8ec6":"C17","7ef5ffd":"C04","351e64d":"C04","33696b9":"C10","e4ed3f1":"C15","5c4fe0a":"C15","ea12515":"C15","410b99a":"C15","85d9909":"C17","f24ed1b":"C15","6e7e1ec":"C17","72bbc50":"C06","41953ff":"C11","e7ad11c":"C14","e38c01b":"C16"}
EXTRA=json.load(open(os.path.dirname(__file__)+"/known_extra.json")) if os.path.exists(os.path.dirname(__file__)+"/known_extra.json") else {"prop":{},"known":[]}
PROP.update(EXTRA["prop"])
out=[]
for l in reversed(subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()):
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    if h not in PROP: print("no property for",l); continue
    w=s[5:]; out.append({"property":PROP[h],"status":"fixed","commit":h,"what":w,"line":"fixed: property=%s %s %s"%(PROP[h],h,w)})
json.dump({"findings":out+EXTRA["known"]},open(os.path.dirname(__file__)+"/../known_findings.json","w"),indent=1)
