"""Discharging obligations: ring normalisation, case splitting, SMT."""
import time

from . import term as T
from . import smt

MAXLEAVES = 4000
STAT = {"ring": 0, "split": 0}


class Leaf:
    """an open leaf of a proof attempt"""

    def __init__(self, facts, goal, res):
        self.facts, self.goal, self.res = facts, goal, res


def _find_cond(p, seen=None):
    """an ite condition occurring in p whose own term contains no ite"""
    acc = set()
    T.atoms_of_poly(p, acc)
    best = None
    for a in acc:
        if a.kind != "ite":
            continue
        c = a.data[0]
        inner = set()
        T.atoms_of_bool(c, inner)
        if any(x.kind == "ite" for x in inner):
            continue
        vs = set()
        for x in inner:
            vs |= T.atom_vars(x)
        if any(_bound_id(v) for v in vs):
            continue
        key = (len(inner), a.id)
        if best is None or key < best[0]:
            best = (key, c)
    if best is None:
        return None
    c = best[1]
    # decide conjunctions one conjunct at a time
    while c.kind in ("and", "or"):
        c = c.data[0]
    if c.kind == "not":
        c = c.data
    return c


def _bound_id(v):
    a = T._atom_list[v]
    return a.kind == "var" and str(a.data).startswith("$b")


def _assign(p, c, val, memo):
    return _rw(p, c, val, memo)


def _rw(p, c, val, memo):
    nc = T.bnot(c)

    def rb(b):
        if b is c:
            return T.TRUE if val else T.FALSE
        if b is nc:
            return T.FALSE if val else T.TRUE
        if b.kind == "and":
            return T.band(*[rb(x) for x in b.data])
        if b.kind == "or":
            return T.bor(*[rb(x) for x in b.data])
        if b.kind == "not":
            return T.bnot(rb(b.data))
        return b

    def f(a):
        if a.kind == "ite":
            b = rb(a.data[0])
            if b is T.TRUE:
                return T.rewrite_poly(a.data[1], f, memo)
            if b is T.FALSE:
                return T.rewrite_poly(a.data[2], f, memo)
            if b is not a.data[0]:
                return T.ite(b, T.rewrite_poly(a.data[1], f, memo), T.rewrite_poly(a.data[2], f, memo))
        return None
    return T.rewrite_poly(p, f, memo)


class Budget:
    def __init__(self, seconds):
        self.end = time.time() + seconds
        self.leaves = 0

    def out(self):
        return time.time() > self.end or self.leaves > MAXLEAVES


def _implied(facts, b):
    if b is T.TRUE or b in facts:
        return True
    if b is T.FALSE:
        return False
    return smt.quick_check(facts, b) == "unsat"


def prove_eq(facts, lhs, rhs, budget=None, hints=()):
    """prove lhs == rhs under facts; returns result dict with 'leaves' used and,
    on failure, 'leaf' (facts, goal)"""
    t0 = time.time()
    budget = budget or Budget(60)
    d = T.sub(lhs, rhs)
    if d.sort == "I" or True:
        if not d.terms:
            STAT["ring"] += 1
            return dict(status="proved", backend="ring-normaliser", time=0.0, leaves=1)
    backends = set()
    n = [0]

    def rec(facts, d):
        if not d.terms:
            n[0] += 1
            backends.add("ring-normaliser")
            return None
        if budget.out():
            return Leaf(facts, T.eq0(d), dict(status="unknown", backend="", exact=False, tried=[("budget", "")]))
        c = _find_cond(d)
        if c is not None:
            if _implied(facts, c):
                return rec(facts, _rw(d, c, True, {}))
            nc = T.bnot(c)
            if _implied(facts, nc):
                return rec(facts, _rw(d, c, False, {}))
            budget.leaves += 1
            r = rec(facts + (c,), _rw(d, c, True, {}))
            if r is not None:
                return r
            return rec(facts + (nc,), _rw(d, c, False, {}))
        dens, d3 = T.clear_denominators(d)
        if dens:
            # equality is claimed where both sides are defined: see definedness obligations
            return rec(facts + tuple(T.bnot(T.eq0(p)) for p in dens), d3)
        g = T.eq0(d)
        if g is T.TRUE:
            return None
        # equalities between indices in the facts: rewrite
        d2 = subst_equalities(facts, d)
        if d2 is not d:
            return rec(facts, d2)
        r = smt.prove(facts, g, timeout=max(2.0, min(8.0, budget.end - time.time())), extra=hints)
        if r["status"] == "proved":
            n[0] += 1
            backends.add(r["backend"])
            return None
        # contradictory leaf?
        return Leaf(facts, g, r)

    leaf = rec(tuple(facts), d)
    dt = time.time() - t0
    if leaf is None:
        return dict(status="proved", backend="+".join(sorted(backends)), time=dt, leaves=n[0])
    r = dict(leaf.res)
    r["time"] = dt
    r["leaf"] = leaf
    return r


def subst_equalities(facts, d):
    """use facts of the form var = expr (integer sort) to normalise d"""
    vs = T.poly_vars(d)
    for b in facts:
        if b.kind == "eq":
            p = b.data
            for m, k in p.terms.items():
                if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                    a = T._atom_list[m[0][0]]
                    if a.kind == "var" and a.id in vs and p.sort == "I":
                        rest = T.sub(p, T.scale(T.from_atom(a), k))
                        sol = T.scale(rest, -k)
                        if a.id in T.poly_vars(sol):
                            continue
                        d2 = T.subst_poly(d, {a.id: sol})
                        if d2 is not d:
                            return d2
    return d


def prove_goal(facts, goal, budget=None, hints=()):
    """prove a boolean goal; equalities/inequalities with ite are case split"""
    budget = budget or Budget(60)
    t0 = time.time()
    facts = tuple(facts)
    if goal is T.TRUE:
        return dict(status="proved", backend="ring-normaliser", time=0.0, leaves=1)
    if goal.kind == "and":
        tot, bs = 0, set()
        for g in goal.data:
            r = prove_goal(facts, g, budget, hints)
            if r["status"] != "proved":
                return r
            tot += r.get("leaves", 1)
            bs.add(r["backend"])
        return dict(status="proved", backend="+".join(sorted(bs)), time=time.time() - t0, leaves=tot)
    if goal.kind == "eq":
        return prove_eq(facts, goal.data, T.const(0, goal.data.sort), budget, hints)
    if goal.kind in ("le", "lt"):
        mk = T.le0 if goal.kind == "le" else T.lt0
        backends = set()
        n = [0]

        def rec(facts, p):
            g = mk(p)
            if g is T.TRUE:
                n[0] += 1
                backends.add("ring-normaliser")
                return None
            if budget.out():
                return Leaf(facts, g, dict(status="unknown", backend="", exact=False, tried=[("budget", "")]))
            c = _find_cond(p)
            if c is not None:
                if _implied(facts, c):
                    return rec(facts, _rw(p, c, True, {}))
                nc = T.bnot(c)
                if _implied(facts, nc):
                    return rec(facts, _rw(p, c, False, {}))
                budget.leaves += 1
                r = rec(facts + (c,), _rw(p, c, True, {}))
                if r is not None:
                    return r
                return rec(facts + (nc,), _rw(p, c, False, {}))
            r = smt.prove(facts, g, timeout=max(2.0, min(10.0, budget.end - time.time())), extra=hints)
            if r["status"] == "proved":
                n[0] += 1
                backends.add(r["backend"])
                return None
            return Leaf(facts, g, r)
        leaf = rec(facts, goal.data)
        if leaf is None:
            return dict(status="proved", backend="+".join(sorted(backends)), time=time.time() - t0, leaves=n[0])
        r = dict(leaf.res)
        r["leaf"] = leaf
        r["time"] = time.time() - t0
        return r
    r = smt.prove(facts, goal, timeout=8.0, extra=hints)
    r["leaves"] = 1
    if r["status"] != "proved":
        r["leaf"] = Leaf(facts, goal, r)
    return r
