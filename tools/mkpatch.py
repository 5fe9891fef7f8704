#!/usr/bin/env python3
"""mkpatch.py ID PROP NEEDS WHAT < edits: JSON list of [file, old, new]; writes seeded/ID/patch.diff and meta.json."""
import json, os, subprocess, sys, tempfile, shutil
i, prop, needs, what = sys.argv[1:5]
edits = eval(sys.stdin.read())
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
out = ""
files = {}
for f, a, b in edits:
    s = files.get(f) or open("/repo/" + f, encoding="latin-1").read()
    assert s.count(a) == 1, (f, s.count(a), a)
    files[f] = s.replace(a, b)
for f, s in files.items():
    for side, txt in (("a", open("/repo/" + f, encoding="latin-1").read()), ("b", s)):
        p = os.path.join(t, side, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w", encoding="latin-1").write(txt)
    r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE)
    body = r.stdout.decode("latin-1").split("\n")
    body[0], body[1] = "--- a/" + f, "+++ b/" + f
    out += "diff --git a/%s b/%s\n" % (f, f) + "\n".join(body)
shutil.rmtree(t)
open(d + "/patch.diff", "w", encoding="latin-1").write(out)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
print(subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode)
