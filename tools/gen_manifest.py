#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks present in vf/checks."""
import json, os
V = "/verif"
TECH = "explicit TLA+ specification (%s) checked exhaustively with TLC; implementation bound by trace validation: %s"
T = {
 "C02": ("spec/Lifecycle", "whole runs recorded with harness/sim.c are replayed through Lifecycle_Trace, with file names and header times read back"),
 "C04": ("spec/Lifecycle", "snapshots of the run directory at every file operation, crashes injected at each of them, restarts; validated by Lifecycle_Trace"),
}
try:
    exec(open(os.path.join(V, "tools/manifest_table.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists("%s/vf/checks/%s.py" % (V, i.lower())):
        spec, how = T[i][0], T[i][1]
        checks.append(dict(property=i, quick_cmd="/verif/check %s quick" % i, thorough_cmd="/verif/check %s thorough" % i,
                           technique=TECH % (spec, how), level="model_checking",
                           level_note=T[i][2] if len(T[i]) > 2 else "model exhaustive within its stated bounds; the code is covered on the recorded traces"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet") if "NA" in globals() else "check not built yet"))
json.dump(dict(version=1, setup_cmd="/verif/setup.sh", hooks=dict(guard="none", enable="none: observation is by symbol interposition from /verif/harness, no hook is compiled into /repo", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
