"""Mathematical lemmas over the contracts, checked by Lean with Mathlib on
every run (no code involved: the code enters through the contracts)."""
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lean(file, note=""):
    """every theorem of lemmas/<file> is an obligation"""
    t0 = time.time()
    path = os.path.join(HERE, "lemmas", file)
    src = open(path).read()
    names = re.findall(r"^(?:theorem|lemma)\s+(\w+)", src, re.M)
    res = dict(fn="lemma %s" % file, cfg="Lean 4 + Mathlib", records=[], callees=[], notes=[], trusted=[],
               unsupported=None, mode="lemma", file="/verif/lemmas/" + file, replay_task=None, vacuous=0)
    exe = shutil.which("lean")
    if exe is None:
        res["unsupported"] = "lean is not installed"
        return res
    if re.search(r"\b(sorry|axiom|admit|native_decide)\b", re.sub(r"/-.*?-/|--[^\n]*", "", src, flags=re.S)):
        res["unsupported"] = "sorry in " + file
        return res
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
    p = subprocess.run([exe, path], capture_output=True, text=True, timeout=240, env=env)
    ok = p.returncode == 0 and "error" not in p.stdout and "declaration uses" not in p.stdout
    if not ok:
        res["unsupported"] = "lean: " + (p.stdout + p.stderr)[:400]
        return res
    dt = round(time.time() - t0, 3)
    for n in names:
        res["records"].append(dict(kind="lemma", name=n, status="proved", backend="lean", time=dt / len(names),
                                   exact=True, detail=None, model=None))
    res["time"] = dt
    return res
