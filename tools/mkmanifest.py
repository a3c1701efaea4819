#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties.
import json, os
props=[json.loads(l) for l in open(os.environ.get('VERIF', '/verif') + '/properties.jsonl')]
FE={"S04","S05","S07","S08","S09","S12","S16","S17","S21","S22"}
NOTE={}
NA={
"N01":"a pure function of two strings: no time, concurrency, I/O or second party for a simulator to vary (versions and constraints do occur, at random, in the simulated worlds of S03 and S10)",
"N02":"a pure parser: the outcome depends on the record alone, not on any schedule, fault or history (generated records are parsed in every simulated run of S03 and S10)",
"N03":"a pure function of the configuration text and the environment",
"N04":"a function of the archive's bytes alone; needs adversarial archive inputs, not schedules or faults",
"N05":"a static list of variable names filtered by a pure function; no schedule or fault changes what is filtered",
}
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    checks.append(dict(property=i,
      quick_cmd=f"bash run.sh check {i} quick", thorough_cmd=f"bash run.sh check {i} thorough",
      technique="deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real pkgr, judged against an executable model",
      level="exploration",
      level_note="quick explores about 5 000 simulated histories in 45 s on 8 cores, thorough as many as fit in 25 minutes; seeds beyond those, R's own bugs and reordering of unsynced writes at power loss are not covered"))
json.dump(dict(version=1,
 setup_cmd="bash run.sh setup",
 hooks=dict(guard="none in /repo: the seams are compiled in with 'go build -overlay' (patched os/exec, net/http, syscall, runtime and a linked simulator package, tag faketime)",
   enable="run.sh builds /repo's working tree with the overlay in /verif/sim/overlay into a scratch directory", source_commits=[]),
 checks=checks,
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="bash run.sh replay <file> shows a recorded violation again; bash run.sh selftest <seconds> runs every history twice and compares traces. Genuine defects found so far were repaired by the 'fix:' commits listed in known-findings.txt."),
 open(os.environ.get('VERIF', '/verif') + '/MANIFEST.json','w'),indent=1)
