"""writes MANIFEST.json from the table below"""
import json
import sys
sys.path.insert(0, "/verif")

TECH = ("contract-based deductive verification: pre/postconditions, frames and loop contracts on the real functions; "
        "obligations generated from /repo's source by symbolic execution on every run; discharged by polynomial "
        "normalisation, z3 and cvc5")
NOTE = ("Every obligation generated from /repo's current source must be discharged. Assumes: real arithmetic for "
        "floating point, mathematical integers for extents; trusts the verifier under vf/, z3/cvc5, the C compiler. ")
EXTRA = {}
NA = {}
try:
    from manifest_table import EXTRA, NA          # noqa
except ImportError:
    sys.path.insert(0, "/verif/tools")
    from manifest_table import EXTRA, NA          # noqa
from vf.levels import LEVEL          # noqa
ids = [json.loads(x)["id"] for x in open("/verif/properties.jsonl")]
PY = "/opt/venv/bin/python"
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd="%s check.py %s quick" % (PY, i),
                       thorough_cmd="%s check.py %s thorough" % (PY, i), evidence_file="evidence/%s.json" % i,
                       technique=TECH, level=LEVEL.get(i, "proof"), level_note=NOTE + EXTRA.get(i, "")))
m = dict(version=1, setup_cmd="%s -c \"import sys; sys.path[:0]=['/repo','/verif']; import vf.props\"" % PY,
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks are needed: the checks import the real modules from /repo and never change them.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
