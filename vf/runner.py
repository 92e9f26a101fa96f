"""Scheduling of verification tasks, resolution of failures, evidence."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import math
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Task:
    """one unit of verification.  kind 'contract' (gen, opts, cfg) or
    'call' (module, func, args)"""

    def __init__(self, kind, label, root=True, **params):
        self.kind, self.label, self.root, self.p = kind, label, root, params

    def __repr__(self):
        return "Task(%s)" % self.label


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout("task time limit")


DEADLINE = [None]


def contract_task(gen, opts, cfg, kinds=None, tags=None, root=True, modular=True):
    from . import contracts
    con = contracts.get(gen, opts)
    lab = con.label if con is not None else gen + str(opts)
    return Task("contract", "%s | %s" % (lab, _cfglab(cfg)), root, gen=gen, opts=opts, cfg=cfg, kinds=kinds,
                tags=tags, modular=modular)


def _cfglab(c):
    from .verify import Cfg
    return Cfg(**c).label


def call_task(label, module, func, root=True, **kw):
    return Task("call", label, root, module=module, func=func, args=kw)


# ------------------------------------------------------------------- worker
def run_task(t, limit=300):
    """executes in a forked child; returns a plain dict"""
    from . import smt
    smt._z3.p = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    if DEADLINE[0]:
        limit = min(limit, max(5, DEADLINE[0] - time.time()))
    signal.alarm(int(limit))
    try:
        if t.kind == "contract":
            r = run_contract_task(t)
        else:
            r = run_call_task(t)
    except Timeout:
        r = dict(fn=t.label, cfg="", records=[], unsupported="time limit of %d s" % limit)
    except Exception as e:
        r = dict(fn=t.label, cfg="", records=[], unsupported="%s: %s" % (type(e).__name__, e),
                 trace=traceback.format_exc()[-2000:])
    finally:
        signal.alarm(0)
    r["label"], r["root"], r["wall"] = t.label, t.root, round(time.time() - t0, 2)
    r["records"] = [x if isinstance(x, dict) else x.d() for x in r["records"]]
    r["smt"] = dict(queries=smt.STATS["queries"], time=dict(smt.STATS["time"]))
    smt.STATS["queries"], smt.STATS["time"] = 0, {}
    return r


def run_contract_task(t):
    from . import contracts, verify, spec_grid
    p = t.p
    cfg = verify.Cfg(modular=p["modular"], **p["cfg"])
    con = contracts.get(p["gen"], p["opts"])
    f = verify.orig(p["gen"])
    if f is None:
        return dict(fn=p["gen"], cfg=cfg.label, records=[], unsupported="generator not found", missing=True)
    r = verify.verify(con, cfg, p["kinds"], p["tags"])
    r["file"] = verify.source_of(f)
    bad = r["unsupported"] or any(x.status != "proved" for x in r["records"])
    if bad and p["gen"] == spec_grid.SSP_GEN and spec_grid.SSP_THIRD[0] == 1:
        # recorded deviation of the third stage (known_findings.json)
        if known_listed("third-stage-half-step"):
            spec_grid.SSP_THIRD[0] = spec_grid.HALF
            try:
                con2 = contracts.get(p["gen"], p["opts"])
                r2 = verify.verify(con2, cfg, p["kinds"], p["tags"])
            finally:
                spec_grid.SSP_THIRD[0] = 1
            if not r2["unsupported"] and all(x.status == "proved" for x in r2["records"]):
                r2["file"] = r["file"]
                r2["known"] = ["third-stage-half-step"]
                return r2
            r2["file"] = r["file"]
            r = r2
            r["known_checked"] = "third-stage-half-step"
    return r


def run_call_task(t):
    import importlib
    m = importlib.import_module(t.p["module"])
    return getattr(m, t.p["func"])(**t.p["args"])


_KNOWN = None


def known_findings():
    global _KNOWN
    if _KNOWN is None:
        try:
            with open(os.path.join(HERE, "known_findings.json")) as f:
                _KNOWN = json.load(f)
        except OSError:
            _KNOWN = {"known": [], "fixed": []}
    return _KNOWN


def known_listed(key):
    return any(k["key"] == key for k in known_findings()["known"])


# -------------------------------------------------------------- concrete replay
def run_concrete(task, timeout=240):
    """runs the real compiled code in a subprocess; returns dict(runs, bad) or
    dict(error)"""
    import tempfile
    d = tempfile.mkdtemp(prefix="vfc")
    try:
        fn = os.path.join(d, "task.json")
        with open(fn, "w") as f:
            json.dump(task, f, default=str)
        env = dict(os.environ)
        env["PYTHONPATH"] = os.environ.get("VF_REPO", "/repo") + ":" + HERE
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["XDG_CACHE_HOME"] = os.path.join(d, "cache")
        env["XDG_CONFIG_HOME"] = os.path.join(d, "config")
        env["OMP_NUM_THREADS"] = "4"
        try:
            p = subprocess.run([PY, "-m", "vf.concrete", fn], cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return dict(error="replay timed out", runs=0, bad=[])
        out = p.stdout.decode(errors="replace")
        if "@@RESULT@@" not in out:
            if p.returncode < 0:
                return dict(runs=1, bad=[dict(error="the process running the real code died with signal %d" %
                                              -p.returncode)])
            return dict(error="replay failed: " + p.stderr.decode(errors="replace")[-800:], runs=0, bad=[])
        return json.loads(out.split("@@RESULT@@")[1])
    finally:
        subprocess.run(["rm", "-rf", d])


def resolve(args):
    """turn failed/unsupported obligations of one result into findings.
    Runs in a child process."""
    t, r = args
    try:
        return _resolve(t, r)
    except Exception:
        r["undecided"] = "resolution failed: " + traceback.format_exc()[-800:]
        return r


FOUND = mp.get_context("fork").Event()
STRUCT = ("race", "bounds", "precision")


def replay_of(t, r):
    """the concrete battery that stands for a task on the compiled code"""
    if t.kind != "contract":
        return r.get("replay_task")
    p = t.p
    task = dict(type="contract", gen=p["gen"], opts=p["opts"], real=p["cfg"].get("real", "f64"),
                threads=p["cfg"].get("threads", False), size=p["cfg"].get("size"), alias=p["cfg"].get("alias"),
                seeds=6)
    if r.get("known_checked") or r.get("known"):
        task["ssp_third"] = 0.5
    return task


def cross(args):
    """thorough tier: the contract, proved, evaluated against the compiled code"""
    t, r, until = args
    task = replay_of(t, r)
    left = until - time.time()
    if task is None or left < 20:
        return r
    rc = run_concrete(task, timeout=min(400, left))
    r["crosscheck"] = dict(runs=rc.get("runs", 0), error=rc.get("error"))
    if rc.get("bad"):
        r["failure"] = dict(with_input=True, obligations=[dict(kind="crosscheck", name="compiled code against the contract",
                                                               status="failed")], task=task, mismatch=rc["bad"][:5])
    return r


def crosscheck(res, until):
    todo, seen = [], set()
    for t, r in res:
        if r.get("dropped") or r.get("failure") or r.get("bounded") or r.get("undecided"):
            continue
        k = json.dumps(replay_of(t, r), sort_keys=True, default=str)
        if k not in seen and k != "null":
            seen.add(k)
            todo.append((t, r, until))
    new = {}
    for (t, r, _), r2 in zip(todo, pmap(cross, todo)):
        new[t.label] = r2 if r2 and "crash" not in r2 else r
    return [(t, new.get(t.label, r)) for t, r in res]


def _resolve(t, r):
    bad = [x for x in r["records"] if x["status"] != "proved"]
    if not bad and not r.get("unsupported"):
        return r
    task = replay_of(t, r)
    if t.kind == "contract":
        p = t.p
        sizes = []
        for b in bad:
            m = b.get("model")
            if m and p["cfg"].get("size") in (None, "any"):
                from .contracts import get
                con = get(p["gen"], p["opts"])
                sz = [m.get(n, 0) for n in (("ny", "nx") if con.dim == 2 else ("nz", "ny", "nx"))]
                sz = [max(s, con.min_size) for s in sz]
                if math.prod(sz) > 4e5:
                    sz = [min(s, con.min_size + 12) for s in sz]
                if sz not in sizes:
                    sizes.append(sz)
        task["extra_sizes"] = sizes[:4]
    if task and FOUND.is_set() and not r.get("unsupported"):
        task["seeds"], task["short"] = 2, True      # a failing input is known already
    rc = run_concrete(task) if task else None
    r["replay_result"] = rc
    if rc and rc.get("bad"):
        FOUND.set()
    if rc and rc.get("bad"):
        r["failure"] = dict(with_input=True, obligations=bad[:10], task=task, mismatch=rc["bad"][:5],
                            unsupported=r.get("unsupported"))
    elif r.get("unsupported"):
        if rc and rc.get("runs"):
            r["bounded"] = dict(runs=rc["runs"], reason=r["unsupported"])
        else:
            r["undecided"] = "%s; no concrete run (%s)" % (r["unsupported"], rc.get("error") if rc else "none")
    else:
        hard = [b for b in bad if b["status"] == "sat" and b.get("exact") and b["kind"] != "defined"]
        if hard:
            r["failure"] = dict(with_input=False, obligations=hard[:10], task=task)
        else:
            r["undecided"] = "solver undecided on %d obligation(s): %s" % (
                len(bad), "; ".join("%s %s [%s]" % (b["kind"], b["name"], b.get("detail")) for b in bad[:3]))
            if rc and rc.get("runs"):
                r["bounded"] = dict(runs=rc["runs"], reason=r["undecided"])
    return r


# --------------------------------------------------------------------- pool
def pmap(fn, items, procs=8):
    """one forked child per item (fresh solver state, bounded memory)"""
    if not items:
        return []
    res = [None] * len(items)
    ctx = mp.get_context("fork")
    todo = list(enumerate(items))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < procs:
            i, it = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=_child, args=(fn, it, b))
            pr.start()
            b.close()
            live[i] = (pr, a, it)
        ready = mp.connection.wait([x[1] for x in live.values()], timeout=5)
        for i, (pr, a, it) in list(live.items()):
            if a in ready:
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = None
                a.close()
                pr.join()
                del live[i]
    return res


def _child(fn, it, conn):
    try:
        r = fn(it)
    except BaseException:
        r = dict(crash=traceback.format_exc()[-1500:])
    try:
        conn.send(r)
    finally:
        conn.close()
        from . import smt
        smt._z3.stop()
        os._exit(0)


def run_all(tasks, seconds=780, log=lambda *a: None):
    """runs the tasks, the contracts of their callees, inline re-verification
    where a callee contract fails, and the resolution of failures"""
    end = time.time() + seconds
    DEADLINE[0] = end
    results = {}
    order = []
    by_label = {}
    todo = []
    for t in tasks:
        if t.label not in by_label:
            by_label[t.label] = t
            todo.append(t)
    callers = {}      # callee task label -> set of root labels
    while todo:
        rs = pmap(run_task, todo)
        nxt = []
        for t, r in zip(todo, rs):
            if r is None or "crash" in r:
                r = dict(fn=t.label, cfg="", records=[], label=t.label, root=t.root, wall=0,
                         unsupported="task process failed: %s" % (r or {}).get("crash", "ended"))
            results[t.label] = (t, r)
            order.append(t.label)
            log("%-100s %s %3d obligations %d open %s %.1fs" % (
                t.label[:100], r.get("mode", ""), len(r["records"]),
                sum(x["status"] != "proved" for x in r["records"]), (r.get("unsupported") or "")[:80], r["wall"]))
            for gen, opts in r.get("callee_keys") or []:
                if time.time() > end - 30:
                    continue
                for u in callee_tasks(gen, dict(opts), t.p.get("cfg") or dict(real=t.p["args"].get("real", "f64"), threads=t.p["args"].get("threads", False))):
                    callers.setdefault(u.label, set()).add(t.label)
                    if u.label not in by_label:
                        by_label[u.label] = u
                        nxt.append(u)
        todo = nxt
    # failed callee contracts: re-verify their callers against the body
    redo = set()

    def up(lab, seen):
        for c in callers.get(lab, ()):
            if c in seen:
                continue
            seen.add(c)
            up(c, seen)
        return seen
    dropped = set()
    for lab in list(results):
        t, r = results[lab]
        if not t.root and (r.get("unsupported") or any(x["status"] != "proved" for x in r["records"])):
            dropped.add(lab)
            for c in up(lab, set()):
                ct = results[c][0]
                if ct.root:
                    redo.add(c)
                else:
                    dropped.add(c)
    if redo:
        ts = []
        for lab in sorted(redo):
            t = results[lab][0]
            if t.kind == "contract":
                u = Task("contract", t.label, True, **dict(t.p, modular=False))
            else:
                u = Task("call", t.label, True, **dict(t.p, args=dict(t.p["args"], modular=False)))
            ts.append(u)
        for t, r in zip(ts, pmap(run_task, ts)):
            if r is not None and "crash" not in r:
                r["reverified"] = "callee contract failed; verified against the body"
                results[t.label] = (t, r)
                log("re-verified %s: %d open %s" % (t.label, sum(x["status"] != "proved" for x in r["records"]),
                                                     r.get("unsupported") or ""))
    # resolve
    pend = [(t, r) for lab, (t, r) in results.items()
            if lab not in dropped and (r.get("unsupported") or any(x["status"] != "proved" for x in r["records"]))]
    for (t, r), r2 in zip(pend, pmap(resolve, pend)):
        results[t.label] = (t, r2 if r2 and "crash" not in r2 else r)
    out = []
    for lab in order:
        t, r = results[lab]
        r["dropped"] = lab in dropped
        out.append((t, r))
    return out


def callee_tasks(gen, opts, cfg):
    from . import contracts
    con = contracts.get(gen, opts)
    if con is None:
        return []
    c = dict(real=cfg.get("real", "f64"), threads=cfg.get("threads", False), size=None)
    return [contract_task(gen, opts, dict(c, alias=al), root=False) for al in [None] + con.aliases]
