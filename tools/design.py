#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from the harnesses, the last evidence and the planted bugs (run by hand)."""
import glob, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import harness  # noqa: E402

rows = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    hs = harness.get(p["id"]).harnesses
    try:
        e = json.load(open(f"{V}/evidence/{p['id']}.json"))
        fn = e["coverage"].get("functions_encoded", [])
        t = e.get("wall_s") or e["coverage"].get("wall_s") or ""
        t = f"{t:.0f} s" if t else ""
    except Exception:
        fn, t = [], ""
    mods = {}
    for f in fn:
        m, _, q = f.partition(":")
        mods.setdefault(m.replace("rxls.", ""), set()).add(q.split(".")[1] if q.startswith(("chunk.", "record.")) else q.split(".<")[0].split(".")[-1] if "." not in q else q.split(".")[-1])
    fs = "; ".join(f"{m}: {', '.join(sorted(q)[:9])}{' ...' if len(q) > 9 else ''}" for m, q in sorted(mods.items()))
    b = "; ".join(f"*{h.name}*: {h.bounds}" for h in hs)
    rows.append(f"| {p['id']} {p['title']} | {fs} | harness/{p['id'].lower()}.py | {b} | {t} |".replace("\n", " "))
seeds = ["| bug | property | needs | first | now |", "|---|---|---|---|---|"]
notes = json.load(open(V + "/tools/seednotes.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    n = notes.get(i, ["caught", "caught"])
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {n[0]} | {n[1]} |")
t = open(V + "/DESIGN.md").read()
def put(t, name, lines):
    body = "\n".join(lines)
    t = t.replace(f"@{name}@", f"<!--{name}-->\n<!--/{name}-->") if f"@{name}@" in t else t
    return re.sub(rf"<!--{name}-->\n.*?<!--/{name}-->", lambda _: f"<!--{name}-->\n{body}\n<!--/{name}-->", t, flags=re.S)
# a table may not be broken by a comment: the rows follow their header inside the marks
head = "| id | functions executed symbolically | oracle | bounds | quick time |\n|---|---|---|---|---|\n"
t = t.replace(head + "@TABLE@", "@TABLE@")
t = put(t, "TABLE", [*head.strip().split("\n"), *rows])
t = put(t, "SEEDS", seeds)
open(V + "/DESIGN.md", "w").write(t)
