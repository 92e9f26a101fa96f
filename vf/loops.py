"""Loops with a symbolic trip count: summarised by an inferred invariant.

For `for i in range(a, b)` with symbolic bounds the body is executed once for
an arbitrary iteration i from an arbitrary state of the arrays it modifies.
Two invariants are inferred and checked:
  * accumulate: every modified array X satisfies X_{i+1} = X_i + d_i with d_i
    independent of all modified arrays   =>  X_n = X_0 + Sum_{i<n} d_i
  * independent writes: iteration i writes cells determined by i (injective),
    values independent of the modified arrays.
Anything else is outside the fragment (Unsupported)."""
import ast
import builtins
import inspect
import sys
import textwrap

from . import term as T
from .sym import Sym, Unsupported, ctx, pt
from .sarr import uf_content, memo_content, unwrap


def vrange(*args):
    if all(isinstance(a, builtins.int) for a in args):
        return builtins.range(*args)
    vals = []
    for a in args:
        p = pt(a)
        if p.sort != "I":
            raise TypeError("range() argument must be int")
        vals.append(p)
    if all(T.is_const(p) for p in vals):
        return builtins.range(*[int(T.const_val(p)) for p in vals])
    if len(vals) == 1:
        vals = [T.const(0)] + vals
    if len(vals) == 3 and not (T.is_const(vals[2]) and T.const_val(vals[2]) == 1):
        raise Unsupported("range step")
    hook = getattr(ctx(), "loop_hook", None)
    if hook is not None:
        h = hook(vals[0], vals[1])
        if h is not None:
            return h
    return SymRange(vals[0], vals[1])


class SymRange:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __len__(self):
        raise Unsupported("len of symbolic range")

    def __iter__(self):
        return _loop(self.a, self.b)


def _check_locals(frame):
    code = frame.f_code
    try:
        lines, start = inspect.getsourcelines(code)
        tree = ast.parse(textwrap.dedent("".join(lines)))
    except Exception:
        raise Unsupported("source of loop not available")
    line = frame.f_lineno - start + 1
    loops = [n for n in ast.walk(tree) if isinstance(n, ast.For) and n.lineno <= line <= (
        n.iter.end_lineno or n.lineno)]
    if not loops:
        raise Unsupported("symbolic range outside a for statement")
    loop = min(loops, key=lambda n: n.end_lineno - n.lineno)
    stored = set()
    inner = set()
    for b in loop.body:
        for n in ast.walk(b):
            inner.add(n)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                raise Unsupported("attribute assignment in a symbolic loop")
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield)):
                raise Unsupported("early exit in a symbolic loop")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "update"):
                raise Unsupported("container update in a symbolic loop")
    if loop.orelse:
        raise Unsupported("for-else")
    for n in ast.walk(tree):
        if n not in inner and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored:
            raise Unsupported("loop-local %s used outside the loop" % n.id)
    tgt = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    for n in stored - tgt:
        if n in frame.f_locals:
            raise Unsupported("loop-carried local %s" % n)


def _loop(a, b):
    c = ctx()
    if c.implied(T.le(b, a)):
        return
    if not c.implied(T.le(a, b)):
        if c.branch(T.le(b, a)):
            return
    _check_locals(sys._getframe(1))
    saved = [(x, x.content, x.writes) for x in c.buffers]
    nb = len(c.buffers)
    level = getattr(c, "loop_level", 0)
    if level:
        raise Unsupported("nested symbolic loops")

    def enter(tag):
        iv = T.var(c.fresh("it" + tag), "I")
        st = (len(c.assumps), len(c.path), len(c.obls))
        c.path.append(T.le(a, iv))
        c.path.append(T.lt(iv, b))
        c.loop_level = level + 1
        c.pos_in = c.pos
        return iv, st

    def leave(st, keep_obls):
        if c.pos != c.pos_in:
            raise Unsupported("branch on symbolic data inside a loop")
        c.loop_level = level
        if not keep_obls:
            del c.obls[st[2]:]
        del c.assumps[st[0]:]
        del c.path[st[1]:]

    # pass 1: which arrays does the body modify?
    iv, st = enter("d")
    yield Sym(iv)
    leave(st, False)
    modified = [(x, old) for x, old, w in saved if x.content is not old]
    for x, old, w in saved:
        x.content = old
        x.writes = w
    del c.buffers[nb:]
    # pass 2: arbitrary iteration from arbitrary contents
    hv = {}
    for x, old in modified:
        n = c.fresh("H_" + x.name)
        hv[x] = n
        x.content = uf_content(n, x.dtype)
    iv, st = enter("")
    yield Sym(iv)
    for x, old, w in saved:
        if x not in hv and x.content is not old:
            raise Unsupported("loop modifies different arrays on different iterations")
    hnames = set()
    for x, n in hv.items():
        hnames |= {n, n + ".re", n + ".im"}
    iid = next(iter(iv.terms))[0][0]
    for x, old in modified:
        x.content_after = x.content
        if x.dtype.kind == "c":
            raise Unsupported("complex array modified in loop")
        summ = _summarise(c, x, hv[x], hnames, iv, iid, a, b, old)
        x.new_content = summ
    leave(st, True)
    for x, old in modified:
        x.content = x.new_content
        x.fourier = None


def _mentions(p, hnames):
    acc = set()
    T.atoms_of_poly(p, acc)
    return any(at.kind == "app" and at.data[0] in hnames for at in acc)


def _bmentions(b, hnames):
    acc = set()
    T.atoms_of_bool(b, acc)
    return any(at.kind == "app" and at.data[0] in hnames for at in acc)


def _as_ite(p):
    if len(p.terms) == 1:
        (m, k), = p.terms.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = T._atom_list[m[0][0]]
            if at.kind == "ite":
                return at.data
    return None


def _summarise(c, x, hname, hnames, iv, iid, a, b, old):
    nd = len(x.shape)
    sk = [T.var("$s%d" % d, "I") for d in range(nd)]
    sids = [next(iter(s.terms))[0][0] for s in sk]
    P = x.content(tuple(sk), 0)
    H = T.app(hname, tuple(sk), "I" if x.dtype.kind in "iub" else "R")

    # --- accumulate
    def sub_base(p):
        t = _as_ite(p)
        if t is not None:
            return T.ite(t[0], sub_base(t[1]), sub_base(t[2]))
        return T.sub(p, H)
    D = sub_base(P)
    level = 0
    if not _mentions(D, hnames):
        bv = T.bound_var(level)

        def content(idx, comp=0):
            env = dict(zip(sids, idx))
            env[iid] = T.add(bv, a)
            body = T.subst_poly(D, env)
            return T.add(old(idx, 0), T.fsum(T.sub(b, a), body, level))
        return memo_content(content)

    # --- independent writes
    cases = []
    p = P
    while p is not H:
        t = _as_ite(p)
        if t is None:
            raise Unsupported("loop body is neither an accumulation nor an independent write")
        r, v, p = t
        if v is H:
            # ite(!r, ...) normalisation: swap
            r, v, p = T.bnot(r), p, v
        if _mentions(v, hnames) or _bmentions(r, hnames):
            raise Unsupported("loop-carried dependence through " + x.name)
        cases.append((r, v))
    out = []
    for r, v in cases:
        conj = r.data if r.kind == "and" else (r,)
        sol = None
        for q in conj:
            if q.kind == "eq":
                for m, k in q.data.terms.items():
                    if m == ((iid, 1),) and abs(k) == 1:
                        rest = T.sub(q.data, T.scale(iv, k))
                        if iid not in T.poly_vars(rest):
                            sol = T.scale(rest, -k)
        if sol is None:
            raise Unsupported("written cell does not determine the iteration")
        if out and sol is not out[0][2] and T.eq(sol, out[0][2]) is not T.TRUE:
            raise Unsupported("one cell may be written by different iterations")
        out.append((r, v, sol))

    def content2(idx, comp=0):
        env = dict(zip(sids, idx))
        res = old(idx, 0)
        for r, v, sol in reversed(out):
            istar = T.subst_poly(sol, env)
            e2 = dict(env)
            e2[iid] = istar
            rr = T.rewrite_bool(r, lambda at: e2.get(at.id), {})
            vv = T.subst_poly(v, e2)
            res = T.ite(T.band(T.le(a, istar), T.lt(istar, b), rr), vv, res)
        return res
    return memo_content(content2)

