"""Rewrites the table of planted changes at the end of DESIGN.md (section 6) from
seeded/*/meta.json and tools/seeds.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st = json.load(open(os.path.join(H, "tools/seeds.json")))
rows = []
missed_first = {l.split()[0]: " ".join(l.split()[1:]) for l in open(os.path.join(H, "tools/missed_first.txt")) if l.strip()}
for d in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    s = st.get(i, {})
    r = "caught" if s.get("caught") else "missed"
    note = f"; first missed: {missed_first[i]}" if i in missed_first else ""
    need = " ".join(m["needs"].split())
    rows.append(f"| {i} | {m['property']} | {r}{note} | {need} |")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
mark = "<!-- seed table -->\n"
s = s[:s.index(mark) + len(mark)] if mark in s else s.rstrip() + "\n\n" + mark
s += "| change | property | by its check | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows), sum("| caught" in r for r in rows))
