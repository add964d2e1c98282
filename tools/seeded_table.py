"""Developer tool: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
ms = sorted((json.load(open(f))["property"], os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in glob.glob(V + "/seeded/*/meta.json"))
for p, n, m in ms:
    rows.append(f"| {n} | {p} | {m['needs']} | {m['what_it_breaks']} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
print(len(ms), "bugs")
