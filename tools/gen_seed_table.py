"""Rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["## Planted bugs", "",
        "Each was written from the text of its property, confirmed in a scratch copy (`tools/seedtry.sh ID CHECK`: demonstration 0 on the unchanged tree,",
        "stable tests pass with the patch, demonstration nonzero with it), and run against the quick check of its property.", "",
        "| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"\n## Planted bugs\n.*?(?=\n## |\Z)", "", s, flags=re.S).rstrip() + "\n\n" + "\n".join(rows) + "\n\n"
s += """## Misses that led to stronger checks

* c20-mix (second end member of a mixture ignored): the event compared the mixture with end members the code had computed itself; it now carries the true viscosities.
""" if "## Misses that led" not in s else ""
open(p, "w").write(s.rstrip() + "\n")
