"""One check run: tasks -> verdict lines, replay files, evidence."""
import collections
import hashlib
import json
import os
import shutil
import sys
import time

from . import runner

HERE = runner.HERE

TRUSTED = [
    "the verifier itself: symbolic executor vf/sym.py, vf/sarr.py, vf/npx.py (numpy semantics), vf/ckern.py "
    "(C subset of the generated kernels), vf/loops.py, polynomial normaliser vf/term.py",
    "z3 4.8.12 / cvc5 1.1.2 answers 'unsat'",
    "pystencils 1.1 code generation up to the generated C text is executed, not trusted; the C compiler and OpenMP "
    "runtime that compile that text are trusted",
    "CPython/PyPy semantics of the Python subset executed symbolically",
]
ASSUME = [
    "machine arithmetic: floating point treated as exact real arithmetic (rounding, overflow, NaN not modelled); "
    "array extents treated as mathematical integers (no overflow of int64 index arithmetic)",
    "sin, cos, log, sqrt, pi: uninterpreted except for the recorded axioms (vf/smt.py)",
]


def check(prop, tier, t0):
    from . import install
    install.install()
    from . import props
    p = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 800 if tier == "quick" else float(os.environ.get("VF_SECONDS", "6000"))
    verbose = os.environ.get("VF_VERBOSE")
    log = (lambda *a: print(*a, flush=True)) if verbose else (lambda *a: None)
    tasks = p(tier)
    res = runner.run_all(tasks, limit - (time.time() - t0), log)
    if tier == "thorough":
        res = runner.crosscheck(res, t0 + limit)
    return conclude(prop, tier, seed, res, t0)


def conclude(prop, tier, seed, res, t0):
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    kf = runner.known_findings()
    viol, undec, bounded, known = [], [], [], []
    for t, r in res:
        if r.get("dropped"):
            continue
        if r.get("known"):
            known += r["known"]
        f = r.get("failure")
        if f:
            k = f.get("known_key") or r.get("known_key")
            if k and runner.known_listed(k):
                known.append(k)
                continue
            viol.append((t, r, f))
        elif r.get("undecided"):
            undec.append((t, r))
        if r.get("bounded"):
            bounded.append(dict(function=r["fn"], config=r.get("cfg"), reason=r["bounded"]["reason"][:300],
                                runs=r["bounded"]["runs"]))
    for k in kf["known"]:
        if k["property"] == prop and k["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # one line per violated function (first configuration), with input preferred
    viol.sort(key=lambda x: not x[2]["with_input"])
    seen, lines = set(), 0
    for t, r, f in viol:
        if r["fn"] in seen or lines >= 5:
            continue
        seen.add(r["fn"])
        lines += 1
        h = hashlib.sha1((prop + r["label"]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        ob = f["obligations"]
        with open(path, "w") as fh:
            json.dump(dict(property=prop, function=r["fn"], file=r.get("file"), config=r.get("cfg"),
                           failed_obligations=ob, verifier=r.get("unsupported"), replay_task=f.get("task"),
                           mismatch=f.get("mismatch"),
                           replay="cd <scratch>; PYTHONPATH=/repo:/verif %s -m vf.concrete <file with replay_task>"
                                  % runner.PY), fh, indent=1, default=str)
        names = "; ".join("%s %s" % (o["kind"], o["name"]) for o in ob[:3])
        print("failed: %s (%s): %s" % (r["fn"], r.get("cfg"), names or r.get("unsupported")))
        if f.get("mismatch"):
            m = {k: v for k, v in f["mismatch"][0].items()}
            print("  real code: %s" % json.dumps(m, default=str)[:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if f["with_input"] else " no-failing-input-found"))
    for t, r in undec[:5]:
        print("UNDECIDED (not counted as proved): %s (%s): %s" % (r["fn"], r.get("cfg"), r["undecided"][:300]))
    ev = evidence(prop, tier, seed, res, viol, undec, bounded, known, t0)
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    c = ev["coverage"]
    print("%s %s: %d functions under contract, %d obligations, %d discharged, %d bounded stand-ins, %d undecided, "
          "%d violations, %s%.1f s" % (prop, tier, c["functions_under_contract_count"], c["obligations"],
                                     c["discharged"], len(bounded), len(undec), len(viol),
                                     "%d cross-check runs, " % c["crosscheck_against_compiled_code"]["runs"]
                                     if "crosscheck_against_compiled_code" in c else "", ev["wall_s"]))
    return 1 if viol else 0


def evidence(prop, tier, seed, res, viol, undec, bounded, known, t0):
    live = [(t, r) for t, r in res if not r.get("dropped")]
    fns = collections.OrderedDict()
    backends = collections.Counter()
    kinds = collections.Counter()
    n = d = 0
    solver = 0.0
    queries = 0
    trusted, notes, samples = set(), set(), []
    vac = 0
    for t, r in live:
        e = fns.setdefault(r["fn"], dict(file=r.get("file"), configs=[], obligations=0, discharged=0, modes=[],
                                         callee_contracts=[]))
        e["configs"].append(r.get("cfg"))
        if r.get("mode") and r["mode"] not in e["modes"]:
            e["modes"].append(r["mode"])
        e["callee_contracts"] = sorted(set(e["callee_contracts"]) | set(r.get("callees") or []))
        if r.get("known"):
            e["known_deviation"] = r["known"]
        for x in r["records"]:
            n += 1
            e["obligations"] += 1
            kinds[x["kind"]] += 1
            if x["status"] == "proved":
                d += 1
                e["discharged"] += 1
                backends[x.get("backend") or "?"] += 1
        solver += sum(r["smt"]["time"].values())
        queries += r["smt"]["queries"]
        trusted |= set(r.get("trusted") or [])
        notes |= set(r.get("notes") or [])
        vac += r.get("vacuous") or 0
        if r["records"] and len(samples) < 6:
            x = r["records"][len(r["records"]) // 2]
            samples.append("%s (%s): %s %s -> %s by %s" % (r["fn"], r.get("cfg"), x["kind"], x["name"], x["status"],
                                                          x.get("backend")))
    fixed = sorted({c for e in fns.values() for c in e["configs"]
                    if c and "fixed grid" in c and "any fixed grid" not in c})
    if fixed:
        anyf = any("any fixed grid" in c for e in fns.values() for c in e["configs"] if c)
        bounded = bounded + [dict(
            function="kernels generated with fixed_grid_size", runs=0,
            reason=("the kernels' text for every fixed size is discharged with a symbolic shape (pystencils then "
                    "leaves the sizes in the text as symbols); with a number as size pystencils folds it into the "
                    "text, and that text is discharged, for all contents, at these sizes: " if anyf else
                    "the generator specialises the kernel text to a number; the obligations are discharged for all "
                    "contents at these sizes only: ") + "; ".join(fixed))]
    cov = dict(obligations=n, discharged=d,
               checker_cmd="%s /verif/check.py %s %s" % (runner.PY, prop, tier),
               trusted_base=TRUSTED + sorted("assumed contract: " + x for x in trusted),
               functions_under_contract_count=len(fns), functions_under_contract=fns,
               obligations_by_kind=dict(kinds), discharged_by_backend=dict(backends),
               solver_queries=queries, solver_time_s=round(solver, 2), vacuous_paths=vac,
               bounded=bounded, undecided=[dict(function=r["fn"], config=r.get("cfg"), what=r["undecided"][:400])
                                           for t, r in undec],
               known_findings_reproduced=sorted(set(known)), samples=samples, repo_notes=sorted(notes)[:40])
    cc = [r["crosscheck"] for t, r in live if r.get("crosscheck")]
    if cc:
        cov["crosscheck_against_compiled_code"] = dict(batteries=len(cc), runs=sum(c["runs"] for c in cc),
                                                       errors=[c["error"][:200] for c in cc if c.get("error")][:5])
    from .levels import LEVEL, EXPLAIN
    if prop in EXPLAIN:
        cov["explanation"] = EXPLAIN[prop]
        cov["bounded"] = cov["bounded"] + [dict(function=x, runs=0, reason="enumerated registration scenario")
                                           for x in fns]
    return dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "proof"), coverage=cov, assumptions=ASSUME,
                wall_s=round(time.time() - t0, 2), violations=len(viol))
