#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree."""
import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix="vfcheck")
    os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
    os.environ["XDG_CONFIG_HOME"] = os.path.join(scratch, "config")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    os.chdir(scratch)
    sys.path[:0] = [os.environ.get("VF_REPO", "/repo"), HERE]   # VF_REPO: development only
    try:
        from vf import report
        rc = report.check(prop, tier, t0)
    finally:
        os.chdir("/")
        import subprocess
        subprocess.run(["rm", "-rf", scratch])
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
