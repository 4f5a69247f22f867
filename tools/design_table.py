"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a log of `plant.py catch`.
Usage: design_table.py LOG"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c09-excluded-start": "drains with excluded bounds were added", "c13-unstable-replace": "long vectors with ties were added",
    "c25-inner-first": "the tap now tells which inner signal may be shown", "c31-broadcaster-keeps-wakers": "clones of wakers are counted",
    "c31-ended-signals-kept": "inner signals are counted after their end too", "c31-mutable-keeps-wakers": "clones of wakers are counted",
    "c07-try-lock": "locks can be seen held: scheduling points before unlocks",
}
try:
    MISSED.update(json.load(open(os.path.join(H, "tools/missed_first.json"))))
except FileNotFoundError:
    pass
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) (CAUGHT|MISSED)", l)
    if m:
        r = re.search(r"run(\d+)\.json", l)
        res[m[1]] = ("caught" if m[3] == "CAUGHT" else "missed") + (f" in run {r[1]}" if r else "")
rows = ["| Change | Check | Result | What it breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {res.get(i, '?')}{'; first missed: ' + MISSED[i] if i in MISSED else ''} | {m['what_it_breaks']} |")
p = os.path.join(H, "DESIGN.md")
d = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
if "@PLANTED@" in d:
    d = d.replace("@PLANTED@", t)
else:
    d = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, d, flags=re.S)
open(p, "w").write(d)
