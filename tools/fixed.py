#!/usr/bin/env python3
# tools/fixed.py PROP COMMIT TEXT: appends a "fixed" entry to known_findings.jsonl (run by hand, never by a check)
import json,sys,os,subprocess
p,c,t=sys.argv[1:4]
h=subprocess.run(["git","-C","/repo","rev-parse",c],stdout=subprocess.PIPE,text=True).stdout.strip()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.jsonl"),"a") as f:
    f.write(json.dumps({"property":p,"status":"fixed","commit":h,"what":t,"line":"fixed: property=%s %s %s"%(p,h[:7],t)})+"\n")
