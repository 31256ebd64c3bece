"""Writes the table of planted bugs at the end of DESIGN.md (development tool)."""
import json, os, re
R = json.load(open("/tmp/pl/results.json"))
P = "/verif/DESIGN.md"
s = open(P).read().split("\n## Planted bugs\n")[0].rstrip("\n")
rows = []
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{d}/meta.json"))
    r = R.get(d, {})
    tail = "".join(c["tail"] for c in r.get("check", []))
    sec = re.search(r"^(C\d\d/[a-z-]+):", tail, re.M)
    got = f"{sec.group(1)}" if r.get("caught") and sec else ("caught" if r.get("caught") else ("missed" if "caught" in r else "not run"))
    rows.append(f"| {d} | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} | {got} |")
n = sum(1 for r in rows if not r.endswith(("missed |", "not run |")))
s += f"""

## Planted bugs

{len(rows)} changes in `seeded/` (confirmed in scratch copies: build, stable tests pass, demonstration fails with
the change only); {n} are caught by the quick check of their property (section named in the last column).

| id | what the change does | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(P, "w").write(s)
print(len(rows), n, [r.split("|")[1] for r in rows if r.endswith(("missed |", "not run |"))])
