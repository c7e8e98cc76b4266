"""rewrites the table of section 8 of DESIGN.md from seeded/*/meta.json"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
tracked = subprocess.run(["git", "ls-files", "seeded"], cwd=H, capture_output=True, text=True).stdout
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    p = os.path.join(H, "seeded", d, "meta.json")
    if not os.path.exists(p) or f"seeded/{d}/" not in tracked:
        continue
    m = json.load(open(p))
    rows.append((m["property"], d, m["what_it_breaks"], m["needs"]))
rows.sort()
t = "| property | planted bug | what it breaks | needs |\n|---|---|---|---|\n" + "".join(f"| {a} | {b} | {c} | {n} |\n" for a, b, c, n in rows)
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
A, Z = "<!-- seeded table -->\n", "<!-- end of seeded table -->\n"
s = s[: s.index(A) + len(A)] + t + s[s.index(Z):]
open(p, "w").write(s)
print(len(rows), "planted bugs")
