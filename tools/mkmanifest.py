#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table of claimed checks.
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
CODEC="exhaustive enumeration of bounded inputs, environment behaviours (chunkings, read splits) and op sequences on the real code, each execution compared with an independent PackStream model"
NET="stateless model checking of the real code: all call histories x server behaviours x fault points within bounds, over a virtual network against an independent Bolt server state machine"
CONC="stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound x faults within bounds"
claimed={
 'C01':CODEC,'C02':CODEC,'C03':CODEC,'C04':CODEC,
}
import importlib.util
extra=os.path.join(R,'tools','claimed.json')
if os.path.exists(extra):
    k={'codec':CODEC,'net':NET,'conc':CONC}
    for p,t in json.load(open(extra)).items(): claimed[p]=k.get(t,t)
note="Exhaustive within the bounds given in the evidence file; the code executed is /repo's own, with goroutines, locks, channels, clock, randomness and sockets replaced by controlled models (mc/rt, mc/v, mc/vnet). Trusts those models, the reference codec (mc/ps) and the server model (mc/boltsrv)."
m={"version":1,
 "setup_cmd":"./setup",
 "hooks":{"guard":"none","enable":"no hooks in /repo: the checks rewrite a copy of its sources (mc/cmd/gen) so that the environment is controlled","source_commits":[]},
 "checks":[{"property":p,"quick_cmd":"./check %s quick"%p,"thorough_cmd":"./check %s thorough"%p,"evidence_file":"evidence/%s.json"%p,"technique":claimed[p],"level":"model_checking","level_note":note} for p in props if p in claimed],
 "not_applicable":[{"property":p,"reason":"check under construction"} for p in props if p not in claimed],
 "notes":"known_findings.txt lists genuine defects; DESIGN.md explains the machinery."}
json.dump(m,open(os.path.join(R,'MANIFEST.json'),'w'),indent=1); open(os.path.join(R,'MANIFEST.json'),'a').write('\n')
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
