#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the check plan and properties.jsonl.
import json, os, re
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
src=open(V+"/check").read()
built=sorted(set(re.findall(r'"(C\d\d)": dict\(v=',src)))
NOTE={
 "A":"Seeded search over schedules, system-call faults and crash images; assumes the in-memory file system's failure and crash model (DESIGN.md). A pass means no violation in the runs explored, not a proof.",
 "S":"Seeded search over system-call and allocation faults, contents and threads, both build configurations; assumes the in-memory file system model.",
 "V":"Seeded search over interleavings at memory-access granularity (sequentially consistent, with vector-clock race detection) and operation histories against per-value reference models; assumes GCC's thread-sanitizer instrumentation sees every access of the library.",
 "M":"Seeded search over allocation-failure positions and call sequences in the real code.",
 "T":"Seeded search over nested script/host histories, threads and faults against reference models per interpreter; real libtcl runs uninstrumented as shipped.",
}
K={**{c:"A" for c in ("C01","C02","C03","C04")},"C05":"S","C06":"S",**{c:"V" for c in ("C07","C08","C09","C10")},"C11":"M",**{c:"T" for c in ("C12","C13","C14","C15","C16","C17","C18")}}
NA={
 "C20":"Pure function of its input: no concurrency, time, I/O, allocation-order or multi-party behaviour for a simulator to control (its allocation failures are C11).",
 "C21":"Pure functions of their inputs: nothing for a scheduler or fault injector to decide (their sharing and allocation behaviour is C07, C08 and C10).",
 "C22":"Pure functions of their inputs: no schedule, fault or history changes the answer.",
 "C23":"Pure functions writing into the caller's buffer: no schedule, fault or history is involved.",
}
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m=dict(version=1,setup_cmd="bash -c 'command -v g++ && command -v python3 && chmod +x check build.sh'",checks=[],not_applicable=[],
  notes="No hooks in /repo: the seams are compiler instrumentation (-fsanitize=thread callbacks implemented by the simulator), linker --wrap and system-call interposition in the simulator binary.")
for p in props:
  i=p["id"]
  if i in built:
    m["checks"].append(dict(property=i,quick_cmd="./check %s --tier quick"%i,thorough_cmd="./check %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,
      technique="deterministic simulation with fault injection",level="exploration",level_note=NOTE[K[i]]))
  else: m["not_applicable"].append(dict(property=i,reason=NA.get(i,"Check under construction.")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
