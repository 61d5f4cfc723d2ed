#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md.

  tools/tables.py costs             from the evidence files
  tools/tables.py seeded FILE       FILE has lines `<id> <property> exit=<code> ...`
"""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(name, lines):
    path = os.path.join(here, "DESIGN.md")
    text = open(path).read()
    new = f"<!-- {name} -->\n" + "\n".join(lines) + f"\n<!-- /{name} -->"
    text, n = re.subn(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: new, text, flags=re.S)
    assert n == 1, name
    open(path, "w").write(text)


if sys.argv[1] == "costs":
    out = ["| Property | Cases | Distinct non-trivial | Seconds searching, per build | Seconds compiling |", "|---|---|---|---|---|"]
    for p in (json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))):
        e = json.load(open(os.path.join(here, "evidence", p["id"] + ".json")))
        c = e["coverage"]
        secs = ", ".join(f"{k} {v:.1f}" for k, v in c["seconds_per_build"].items())
        out.append(f"| {p['id']} | {c['evaluations']} | {c['distinct_nontrivial']} | {secs} | {c['seconds_compiling']:.1f} |")
    put("costs", out)
else:
    got = {}
    for l in open(sys.argv[2]):
        m = re.match(r"(\S+) (C\d+) exit=(\d+)", l)
        if m:
            got[m[1]] = m[3]
    out = ["| Planted bug | Property | Needs | Caught |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(here, "seeded"))):
        m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
        r = {"1": "yes", "0": "no"}.get(got.get(d), "not run")
        out.append(f"| {d} | {m['property']} | {m['needs']} | {r} |")
    put("seeded", out)
