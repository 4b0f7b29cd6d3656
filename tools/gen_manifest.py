#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per scenario source file, plus the properties not claimed."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection, seeded search"
NOTE = {
 'default': "Seeded search over simulated executions of the real library; shows absence of violations only on the explored runs. Trusts the reference models and codec in /verif/sim, the cryptographic primitive crates and the seams listed in DESIGN.md.",
}
NA = {
 'C22': "Pure functions of one argument: no schedule, time, I/O, crash, fault or other party can change the result, so a simulator would only be a random input generator.",
 'C23': "Pure function of credentials and settings: no schedule, time, I/O, crash or fault can change the derived key, so a simulator would only be a random input generator.",
}
ids = sorted(re.search(r'(c\d\d)\.rs$', f).group(1).upper() for f in glob.glob(os.path.join(here, 'sim/src/scen/c[0-9][0-9].rs')))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
na = [dict(property=i, reason=NA.get(i, "Not claimed: no check built yet.")) for i in props if i not in ids]
m = dict(version=1, setup_cmd="bash build.sh && bash build.sh edge && bash build.sh cli",
    checks=[dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i}", technique=TECH,
        level="exploration", level_note=NOTE.get(i, NOTE['default']), evidence_file=f"evidence/{i}.json") for i in ids],
    not_applicable=na,
    notes="No hooks in /repo: every seam is a Read/Write argument, a libc symbol interposed in the simulator binary, the process argument list and time zone or the global allocator. Replay a violation with ./replay FILE.")
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
