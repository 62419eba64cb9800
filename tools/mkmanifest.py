import json,os
os.chdir(os.path.join(os.path.dirname(__file__),'..'))
note={}
checks=[]
for l in open('properties.jsonl'):
    p=json.loads(l); i=p['id']
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
      technique="deterministic simulation with fault injection: seeded search over schedules and faults, checked step by step against a reference model",
      level="exploration",
      level_note="Held on every simulated run of the seeds explored (counts, faults and reached states are in the evidence). The contract, its proc-macro, its helpers and its types run as real code; wasmd, IBC core, the host chain, relayers and receivers are simulated and trusted to match their real counterparts. No claim beyond the schedules sampled."))
m=dict(version=1,setup_cmd="./build.sh lean",checks=checks,not_applicable=[],
 notes="No hooks in /repo: the contract's entry points, Storage, Api, Querier and Env are the seams. Four genuine defects were repaired by fix: commits; see known-findings.txt and DESIGN.md.")
json.dump(m,open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
