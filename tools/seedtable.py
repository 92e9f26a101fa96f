"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    need = re.sub(r"\s+", " ", m["needs"])[:150].replace("|", "/")
    rows.append(f"| {i} | {m['property']} | {need} | {m['property']}{' (' + m['how'] + ')' if m.get('how') else ''} |")
s = open(here + "/DESIGN.md").read()
t = "\n".join(rows)
s = re.sub(r"<!--seeds-->.*?<!--/seeds-->", lambda _: "<!--seeds-->\n" + t + "\n<!--/seeds-->", s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
