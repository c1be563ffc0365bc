"""Prints section 7 of DESIGN.md from seeded/*/meta.json and the results file given (lines: id prop rc=.. .. message)."""
import json, glob, os, sys, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else []:
    m = re.match(r"(\S+) (C\d\d) rc=(\d+) \S+ ?(.*)", l)
    if m:
        k = re.search(r"\] ([A-Z]+):", m[4]); res.setdefault(m[1], {})[m[2]] = (k[1] if k else "yes") if m[3] == "1" else ("missed" if m[3] == "0" else "no answer")
print("## 7. Planted bugs\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; d = json.load(open(f))
    print("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], ", ".join("%s (%s)" % x for x in sorted(res.get(i, {}).items()))))
