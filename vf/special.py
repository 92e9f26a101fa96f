"""Verification of classes and functions that are not kernel generators:
a driver calls the real code on symbolic data and states the contract as
obligations; callee kernel generators are replaced by their contracts
(modular) or executed (direct)."""
import os
import time
import traceback

from . import ghost
from . import smt
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import Buffer, SArr, full_view, F4, F8, C8, C16
from .sym import Unsupported

FORCE = {}      # kinds / replay imposed on the runs of a property that reads one aspect of a contract
KINDS = ("post", "frame", "total", "pre", "bounds", "race", "precision", "lemma")


def vacuous_total(c, fn, what="no exception"):
    """run fn(); an exception of the code is a failed obligation. -> (ok, value)"""
    try:
        return True, fn()
    except (Unsupported, S.PathInfeasible):
        raise
    except Exception as e:
        if "<sym " in str(e) or "vfsym" in str(e):
            raise Unsupported("symbolic value in %s: %s" % (type(e).__name__, str(e)[:200]))
        tb = traceback.extract_tb(e.__traceback__)
        w = [t for t in tb if "/sopht/" in t.filename]
        at = "%s:%d" % (os.path.basename(w[-1].filename), w[-1].lineno) if w else ""
        c.oblige("total", "%s (%s: %s at %s)" % (what, type(e).__name__, str(e)[:100], at), T.FALSE)
        return False, None


def rejects(c, fn, name):
    """fn() must raise"""
    try:
        fn()
    except (Unsupported, S.PathInfeasible):
        raise
    except Exception as e:
        c.oblige("total", "%s: rejected (%s)" % (name, type(e).__name__), T.TRUE)
        return True
    c.oblige("total", "%s: rejected" % name, T.FALSE)
    return False


def run(label, build, real="f64", cfg="", kinds=None, modular=True, file=None, replay=None, budget=150, only=None, fallback=True,
        defined=False):
    """build(c) executes the code and adds obligations to c; with defined, also that every
    division, square root and logarithm in it is defined"""
    t0 = time.time()
    kinds, replay = FORCE.get("kinds", kinds), FORCE.get("replay", replay)
    res = dict(fn=label, cfg=cfg or real, records=[], callees=[], notes=[], trusted=[], unsupported=None, mode="",
               file=file, replay_task=replay)

    def body(c):
        c.real = V.DT[real][1]
        ghost.restore()
        build(c)
        ghost.guard(c)
    log = set()
    for mod in ((True, False) if modular and fallback else (modular,)):
        log.clear()
        try:
            if mod:
                with V.stubs(set(), log, only):
                    ctxs = S.run_paths(body)
                if not log:
                    mod = False
            else:
                ctxs = S.run_paths(body)
        except (Unsupported, RecursionError) as e:
            res["unsupported"] = "%s: %s" % (type(e).__name__, e)
            res["trace"] = traceback.format_exc()[-1500:]
            if mod and fallback:
                continue
            break
        res["unsupported"] = None
        if defined:
            for c in ctxs:
                V.definedness(c)
        recs = V.discharge(ctxs, label, res["cfg"], kinds, None, budget)
        bad = [r for r in recs if r.status != "proved"]
        res["records"] = recs
        if bad and mod and log and fallback:
            continue
        res["mode"] = "modular" if mod else "direct"
        res["callees"] = sorted("%s%s" % (n, list(o) if o else "") for n, o in log)
        res["callee_keys"] = sorted(log) if mod else []
        for c in ctxs:
            res["notes"] += [str(x) for x in c.notes]
            res["trusted"] += [str(x) for x in c.trusted]
        res["paths"] = len(ctxs)
        res["vacuous"] = V.vacuous(ctxs)
        res["divisors"] = sum(len(c.divisors) for c in ctxs)
        break
    res["notes"] = sorted(set(res["notes"]))
    res["trusted"] = sorted(set(res["trusted"]))
    res["time"] = round(time.time() - t0, 3)
    return res


def field(name, shape, real="f64", kind="real"):
    b = Buffer(name, tuple(S.pt(x) for x in shape), V.DT[real][1] if kind == "real" else V.DT[real][2])
    return full_view(b)


def idx_vars(shape, base="i"):
    """index variables and their range condition"""
    ii = tuple(S.ivar("%s%d" % (base, d)) for d in range(len(shape)))
    rng = T.band(*([T.le(T.const(0), i.p) for i in ii] + [T.lt(i.p, S.pt(n)) for i, n in zip(ii, shape)]))
    return ii, rng


def forall(c, kind, name, shape, goal, extra=()):
    """obligation: goal(idx) for every idx within shape"""
    ii, rng = idx_vars(shape)
    old = list(c.assumps)
    c.assumps = old + [rng] + list(extra)
    try:
        c.oblige(kind, name, goal(tuple(i.p for i in ii)))
    finally:
        c.assumps = old


def unchanged(c, name, arr):
    """frame obligation on a whole buffer"""
    b = arr.buf
    if b.content is b.initial:
        c.oblige("frame", "%s unchanged (never written)" % name, T.TRUE)
        return
    for comp in range(2 if b.dtype.kind == "c" else 1):
        forall(c, "frame", "%s unchanged" % name, b.shape,
               lambda i, comp=comp: T.eq(b.content(i, comp), b.initial(i, comp)))


def rt(real):
    from . import npx
    return npx.real_type(V.DT[real][0])


def resolve(c, p):
    """p with every if-then-else whose condition is decided by the current facts
    (by the solver) replaced by its branch"""
    done = {}

    def step(p):
        acc = set()
        T.atoms_of_poly(p, acc)
        for a in acc:
            if a.kind == "floor" and a not in done:
                done[a] = True
                x = a.data[0]
                if c.implied(T.band(T.le(T.const(0), x), T.lt(x, T.const(1)))):
                    return T.rewrite_poly(p, lambda b: T.const(0) if b is a else None, {})
        todo = [a for a in acc if a.kind == "ite" and a not in done]
        # conditions without undecided ites first
        ready = [a for a in todo if not any(x.kind == "ite" and x not in done
                                            for x in T.atoms_of_bool(a.data[0], set()))]
        if not ready:
            return None
        sub = {}
        for a in ready:
            b = a.data[0]
            if c.implied(b):
                sub[a] = a.data[1]
            elif c.implied(T.bnot(b)):
                sub[a] = a.data[2]
            else:
                done[a] = True
        memo = {}

        def f(a):
            while a in sub:
                q = sub[a]
                return T.rewrite_poly(q, f, memo)
            return None
        return T.rewrite_poly(p, f, memo)
    for _ in range(40):
        q = step(p)
        if q is None:
            return p
        p = q
    return p
