"""Verification of one kernel generator against its contract, and the callee
stubs used while verifying its callers."""
import contextlib
import functools
import inspect
import os
import time
import traceback
import types

import numpy as np

from . import contracts as C
from . import prover
from . import ghost
from . import smt
from . import sym as S
from . import term as T
from .sarr import (Buffer, uf_content, SArr, F4, F8, C8, C16, asarr, full_view, write, same_view, disjoint, unwrap, decide_eq)
from .sym import Unsupported

AX = {2: ("ny", "nx"), 3: ("nz", "ny", "nx")}
DT = {"f32": (np.float32, F4, C8), "f64": (np.float64, F8, C16)}


class Cfg:
    def __init__(self, real="f64", threads=False, size=None, alias=None, modular=True):
        self.real, self.threads, self.size, self.alias, self.modular = real, threads, size, dict(alias or {}), modular

    @property
    def label(self):
        return "%s,%s,%s%s" % (self.real, "threads=%s" % self.threads if self.threads else "serial",
                               "any grid" if self.size is None else "any fixed grid" if self.size == "any" else "fixed grid " + "x".join(map(str, self.size)),
                               "," + ",".join("%s is %s" % kv for kv in self.alias.items()) if self.alias else "")

    def key(self):
        return dict(real=self.real, threads=self.threads, size=self.size, alias=self.alias)


# --------------------------------------------------------------- real modules
def originals():
    """name -> real generator function (by __name__, from the sopht modules)"""
    from . import install
    out = {}
    for m in install.sopht_modules():
        for k, v in list(m.__dict__.items()):
            if inspect.isfunction(v) and v.__module__.startswith("sopht") and v.__name__.startswith("gen_"):
                out.setdefault(v.__name__, v)
    return out


_ORIG = None


def orig(name):
    global _ORIG
    if _ORIG is None:
        _ORIG = originals()
    return _ORIG.get(name)


def source_of(f):
    try:
        return os.path.relpath(inspect.getsourcefile(f), "/repo")
    except Exception:
        return "?"


# ------------------------------------------------------------------ accessors
def buf_acc(buf, kind):
    def g(idx, comp):
        return buf.initial(idx, comp)
    return C.SymAcc(g, kind)


def getter_acc(a, kind):
    g0 = a.getter()
    return C.SymAcc(lambda idx, comp: g0(idx, comp), kind)


def piece_value(pieces):
    """list of (tag, cond|None, value) -> Poly (total value)"""
    val = None
    for tag, cond, v in reversed(pieces):
        p = T.to_real(S.pt(v)) if not isinstance(v, tuple) else None
        if val is None:
            val = p
        else:
            val = T.ite(S.bt(cond) if cond is not None else T.TRUE, p, val)
    return val


def out_value(con, E, spec, name, idx, comp):
    """value of output field `name` at base index idx under the contract"""
    f = con.field(name)
    fn = spec[name]
    if f.kind == "vector":
        k, rest = idx[0], idx[1:]
        srest = tuple(S.Sym(i) for i in rest)
        if T.is_const(k):
            return piece_value(fn(int(T.const_val(k)), srest))
        r = None
        for q in reversed(range(con.dim)):
            v = piece_value(fn(q, srest))
            r = v if r is None else T.ite(T.eq(k, T.const(q)), v, r)
        return r
    srest = tuple(S.Sym(i) for i in idx)
    if f.kind == "complex":
        return piece_value(fn(comp, srest))
    return piece_value(fn(0, srest))


# ----------------------------------------------------------------- callee stub
class Stub:
    """stands for a library generator whose contract is verified separately"""

    def __init__(self, fn, name, log):
        self.fn, self.name, self.log = fn, name, log
        self.__name__ = name
        self.sig = inspect.signature(fn)

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        real = args.pop("real_t", None)
        thr = args.pop("num_threads", None)
        fixed = args.pop("fixed_grid_size", False)
        con = C.get(self.name, {k: v for k, v in args.items() if isinstance(v, (str, bool, int))
                                and not isinstance(v, S.Sym)})
        if con is None:
            raise Unsupported("no contract for %s(%s)" % (self.name, sorted(args)))
        gen_fields = {}
        gen_scal = {}
        for f in con.fields:
            if f.gen:
                gen_fields[f.name] = args[f.name]
        for s in con.genscalars:
            gen_scal[s] = args[s]
        self.log.add((con.gen, tuple(sorted(con.opts.items()))))
        if real is None:
            raise Unsupported("real_t")
        from .sarr import npdt
        return StubKernel(con, npdt(real), fixed, gen_fields, gen_scal)


class StubKernel:
    def __init__(self, con, real, fixed, gen_fields, gen_scal):
        self.con, self.real, self.fixed, self.gf, self.gs = con, real, fixed, gen_fields, gen_scal
        self.__name__ = con.gen

    def __call__(self, *pos, **kw):
        if pos:
            raise Unsupported("positional kernel call")
        con, c = self.con, S.ctx()
        args = dict(self.gf)
        names = {f.name for f in con.fields if not f.gen} | set(con.scalars) | set(con.vscalars)
        for k in kw:
            if k not in names:
                raise Unsupported("unexpected kernel argument " + k)
        scal = {s: S.Sym(T.to_real(S.pt(v))) for s, v in self.gs.items()}
        cdt = C8 if self.real == F4 else C16
        for f in con.fields:
            if not f.gen:
                if f.name not in kw:
                    raise KeyError("Missing argument '%s'" % f.name)
                args[f.name] = kw[f.name]
            a = args[f.name]
            if not isinstance(a, SArr):
                raise Unsupported("array argument of type %r" % type(a))
            if a.buf is None:
                a.materialise()
            want = cdt if f.kind == "complex" else self.real
            if a.dtype != want:
                raise ValueError("Wrong data type of array argument '%s'" % f.name)
            if a.ndim != con.dim + (f.kind == "vector"):
                raise Unsupported("argument rank")
        sizes = None
        for f in con.fields:
            a = args[f.name]
            sp = a._shape
            if f.kind == "vector":
                c.require_now("pre", "%s: %s has %d components" % (con.label, f.name, con.dim),
                              T.eq(sp[0], T.const(con.dim)))
                sp = sp[1:]
            if sizes is None:
                sizes = sp
                if self.fixed:
                    c.require_now("pre", "%s: grid equals the fixed size" % con.label,
                                  T.band(*[T.eq(x, S.pt(y)) for x, y in zip(sizes, self.fixed)]))
            else:
                c.require_now("pre", "%s: %s matches the grid" % (con.label, f.name),
                              T.band(*[T.eq(x, y) for x, y in zip(sizes, sp)]))
        c.require_now("pre", "%s: minimum grid size" % con.label,
                      T.band(*[T.le(T.const(con.min_size), x) for x in sizes]))
        # aliasing
        al = {}
        outs = set(con.outputs) | set(con.havoc)
        for i, f in enumerate(con.fields):
            for g in con.fields[i + 1:]:
                if f.name not in outs and g.name not in outs:
                    continue
                a, b = args[f.name], args[g.name]
                if a.buf is not b.buf:
                    continue
                if same_view(a, b):
                    al[f.name] = g.name
                    al[g.name] = f.name
                else:
                    c.require_now("pre", "%s: %s and %s do not overlap" % (con.label, f.name, g.name),
                                  disjoint(a, b))
        if al:
            pairs = {frozenset(x) for x in al.items()}
            ok = any({frozenset(x) for x in v.items()} >= pairs for v in con.aliases)
            if not ok:
                raise Unsupported("aliasing outside the contract: %s" % al)
        for s in con.scalars:
            if s not in kw:
                raise KeyError("Missing argument '%s'" % s)
            v = kw[s]
            if isinstance(v, SArr):
                v = unwrap(v.at(()))
            scal[s] = S.Sym(T.to_real(S.pt(v)))
        for s in con.vscalars:
            v = asarr(kw[s])
            c.require_now("pre", "%s: %s has %d entries" % (con.label, s, con.dim),
                          T.le(T.const(con.dim), v._shape[0]))
            scal[s] = [S.Sym(T.to_real(v.at((T.const(q),)))) for q in range(con.dim)]
        acc = {f.name: getter_acc(args[f.name], f.kind) for f in con.fields}
        E = C.SymEnv(con.dim, sizes, acc, scal)
        if con.pre:
            for g in con.pre(E):
                c.require_now("pre", "%s: precondition" % con.label, S.bt(g))
        spec = con.spec(E)
        for h in con.havoc:
            a = args[h]
            nm = c.fresh("hv_" + h)
            write(a, lambda idx, comp=0, nm=nm: T.app(nm + (".%d" % comp if comp else ""), idx, "R"))
        for o in con.outputs:
            memo = {}

            def g(idx, comp=0, o=o, memo=memo):
                k = (idx, comp)
                r = memo.get(k)
                if r is None:
                    r = memo[k] = out_value(con, E, spec, o, idx, comp)
                return r
            write(args[o], g)


@contextlib.contextmanager
def stubs(exclude, log, only=None):
    """replace every contracted library generator (but `exclude`) by its contract"""
    from . import install
    saved = []
    objs = {}
    for n in C.REG:
        if n in exclude or (only is not None and n not in only):
            continue
        f = orig(n)
        if f is not None:
            objs[id(f)] = Stub(f, n, log)
    for m in install.sopht_modules():
        for k, v in list(m.__dict__.items()):
            if id(v) in objs:
                saved.append((m, k, v))
                m.__dict__[k] = objs[id(v)]
    try:
        yield
    finally:
        for m, k, v in saved:
            m.__dict__[k] = v


# ---------------------------------------------------------------- verification
def nthreads(threads):
    """the thread setting handed to the code; "any": every positive number of threads"""
    if threads != "any":
        return threads
    n = S.ivar("threads")
    S.ctx().assume(n >= 1)
    return n


def call_generator(con, cfg, gen_extra, fn=None):
    from . import npx
    fn = fn or orig(con.gen)
    if fn is None:
        raise Unsupported("generator %s not found" % con.gen)
    np_t = DT[cfg.real][0]
    sig = inspect.signature(fn)
    kw = dict(con.opts)
    kw.update(gen_extra)
    kw["real_t"] = npx.real_type(np_t)
    if "num_threads" in sig.parameters:
        kw["num_threads"] = nthreads(cfg.threads)
    if cfg.size is not None and "fixed_grid_size" in sig.parameters:
        kw["fixed_grid_size"] = tuple(S.ivar(n) for n in AX[con.dim]) if cfg.size == "any" else tuple(cfg.size)
    return fn(**kw)


def setup(con, cfg, c):
    """symbolic arguments of the kernel; returns (gen kwargs, call kwargs, buffers, env)"""
    np_t, rdt, cdt = DT[cfg.real]
    c.real = rdt
    if cfg.size in (None, "any"):
        if cfg.size:
            c.tokens = {}
        sizes = [S.ivar(n) for n in AX[con.dim]]
        for s in sizes:
            c.assume(s >= con.min_size)
    else:
        sizes = list(cfg.size)
    bufs, arrs = {}, {}
    for f in con.fields:
        if f.name in cfg.alias:
            continue
        shape = ((con.dim,) if f.kind == "vector" else ()) + tuple(sizes)
        bufs[f.name] = Buffer(f.name, shape, cdt if f.kind == "complex" else rdt)
        arrs[f.name] = full_view(bufs[f.name])
    for a, b in cfg.alias.items():
        bufs[a], arrs[a] = bufs[b], arrs[b]
    gen, call = {}, {}
    scal = {}
    for f in con.fields:
        (gen if f.gen else call)[f.name] = arrs[f.name]
    for s in con.genscalars:
        v = S.rvar(s)
        c.assume(v > 0)
        gen[s] = scal[s] = v
    for s in con.scalars:
        call[s] = scal[s] = S.rvar(s)
        if s in con.pos_scalars:
            c.assume(call[s] >= 0)
    for s in con.vscalars:
        vs = [S.rvar("%s_%d" % (s, q)) for q in range(con.dim)]
        call[s] = list(vs)
        scal[s] = vs
    acc = {f.name: buf_acc(bufs[f.name], f.kind) for f in con.fields}
    E = C.SymEnv(con.dim, sizes, acc, scal)
    if con.pre:
        for g in con.pre(E):
            c.assume(g)
    return gen, call, bufs, arrs, E


def snapshot(x, seen=None, depth=0):
    """state a callable carries from one call to the next: what its closure,
    attributes and module-level containers hold (array contents are left out:
    see writes)"""
    seen = {} if seen is None else seen
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        return (type(x).__name__, x)
    if isinstance(x, (S.Sym,)):
        return ("sym", x.p)
    if isinstance(x, S.SBool):
        return ("sbool", x.b)
    if id(x) in seen or depth > 12:
        return ("seen", id(x))
    seen[id(x)] = x
    go = lambda y: snapshot(y, seen, depth + 1)
    if isinstance(x, SArr):
        return ("arr", id(x.buf), tuple(x._shape))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.tobytes() if x.dtype != object else tuple(go(y) for y in x.flat))
    if isinstance(x, types.FunctionType):
        cells = []
        for c in x.__closure__ or ():
            try:
                cells.append(go(c.cell_contents))
            except ValueError:
                cells.append("empty")
        glob = ()
        if x.__module__ and x.__module__.startswith("sopht"):
            glob = tuple((k, go(v)) for k, v in sorted(x.__globals__.items())
                         if isinstance(v, (dict, list, set)) and not k.startswith("__") and k != "SHADOW")
        return ("fun", id(x), tuple(cells), go(x.__dict__), go(x.__defaults__), glob)
    if isinstance(x, types.MethodType):
        return ("meth", go(x.__self__), go(x.__func__))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k)[:80] if not isinstance(k, (str, int)) else k, go(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("seq", type(x).__name__, tuple(go(y) for y in x))
    if isinstance(x, (set, frozenset)):
        return ("set", len(x), tuple(sorted(repr(y)[:80] for y in x)))
    if type(x).__module__.startswith("sopht"):
        return ("obj", id(x), go(x.__dict__))
    if isinstance(x, functools.partial):
        return ("partial", go(x.func), go(x.args), go(x.keywords))
    return ("id", id(x))


def exec_contract(con, cfg, log):
    """symbolic execution of the real code; list of contexts with obligations"""
    def run(c):
        ghost.restore()
        body(c)
        ghost.guard(c)

    def body(c):
        gen, call, bufs, arrs, E = setup(con, cfg, c)
        c.E, c.bufs = E, bufs
        scratch = [f.name for f in con.fields if f.gen and f.name in con.havoc and f.name not in cfg.alias]

        def refresh(names, tag):
            for n in names:
                b = bufs[n]
                b.content = b.initial = uf_content(n + tag, b.dtype)
                b.writes, b.stack, b.fourier = 0, None, None
        k, state = None, None
        for use in range(3):
            c.use = use
            try:
                if k is None:
                    k = call_generator(con, cfg, gen)
                    # anything may happen to scratch memory between creation and use
                    refresh(scratch, "'use")
                    state = snapshot(k)
                k(**call)
            except (Unsupported, S.PathInfeasible):
                raise
            except Exception as e:
                if "<sym " in str(e) or "\u27e6" in str(e) or "vfsym" in str(e):
                    raise Unsupported("symbolic value in %s: %s" % (type(e).__name__, str(e)[:200]))
                tb = traceback.extract_tb(e.__traceback__)
                where = [t for t in tb if "/sopht/" in t.filename]
                w = "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""
                c.oblige("total", "no exception (%s: %s at %s)" % (type(e).__name__, str(e)[:80], w), T.FALSE)
                return
            c.oblige("total", "returns normally", T.TRUE)
            conclude(c, E, bufs, "" if use == 0 else "use %d of the kernel: " % (use + 1))
            now = snapshot(k)
            if now == state:
                return          # stateless: one use stands for any history
            if use == 2:
                raise Unsupported("the kernel keeps changing state between calls")
            state = now
            # an arbitrary further use: same arrays, new contents
            refresh([f.name for f in con.fields if f.name not in cfg.alias and (not f.gen or f.name in con.havoc)],
                    "'%d" % (use + 2))
            for s in con.scalars:
                call[s] = E.s[s] = S.rvar("%s'%d" % (s, use + 2))
                if s in con.pos_scalars:
                    c.assume(call[s] >= 0)
            for s in con.vscalars:
                vs = [S.rvar("%s_%d'%d" % (s, q, use + 2)) for q in range(con.dim)]
                call[s], E.s[s] = list(vs), vs
            if con.pre:
                for g in con.pre(E):
                    c.assume(g)

    def conclude(c, E, bufs, use):
        c.in_spec = True
        spec = con.spec(E)
        c.in_spec = False
        base = list(c.assumps)
        done = set()
        for f in con.fields:
            b = bufs[f.name]
            if f.name in cfg.alias:
                # output named through the alias: handled at the output field
                if not (f.name in con.outputs and cfg.alias[f.name] not in con.outputs):
                    continue
            idx = tuple(S.ivar("i%d" % d) for d in range(con.dim))
            rng = T.band(*([T.le(T.const(0), i.p) for i in idx] + [T.lt(i.p, S.pt(n)) for i, n in zip(idx, E.n)]))
            if f.name in con.havoc:
                continue
            isout = f.name in con.outputs or any(o in con.outputs and cfg.alias.get(o) == f.name for o in cfg.alias)
            oname = f.name
            if isout and f.name not in con.outputs:
                oname = [o for o in cfg.alias if cfg.alias[o] == f.name and o in con.outputs][0]
            if oname in done:
                continue
            done.add(oname)
            nc = con.ncomp(f.name)
            for q in range(nc):
                full = tuple(i.p for i in idx)
                comp = 0
                if f.kind == "vector":
                    full = (T.const(q),) + full
                elif f.kind == "complex":
                    comp = q
                nm = "%s%s" % (oname, "[%d]" % q if nc > 1 else "")
                if not isout:
                    if b.content is b.initial:
                        c.oblige("frame", use + "%s unchanged (never written)" % nm, T.TRUE)
                    else:
                        c.assumps = base + [rng]
                        c.oblige("frame", use + "%s unchanged" % nm, T.eq(b.content(full, comp), b.initial(full, comp)))
                        c.assumps = list(base)
                    continue
                c.in_spec = True
                pieces = list(spec[oname](q, idx))
                c.in_spec = False
                for tag, cond, val in pieces:
                    extra = [rng] + ([S.bt(cond)] if cond is not None else [])
                    c.assumps = base + extra
                    # value read under the piece's facts
                    c.oblige("post", use + "%s: %s" % (nm, tag),
                             T.eq(b.content(full, comp), T.to_real(S.pt(val))), info=tag)
                    c.assumps = list(base)

    ctxs = S.run_paths(run)
    for c in ctxs:
        definedness(c)
    return ctxs


def definedness(c):
    """every division, square root and logarithm of the code is defined, wherever the
    contract's own formulas do not need the same condition"""
    for cond, uses in c.divisors.items():
        if cond in c.specified:
            continue
        for f in uses:
            c.obls.append(S.Obligation("defined", "defined: %s" % str(cond)[:80], f, cond))


class Rec:
    """outcome of one obligation"""
    __slots__ = ("fn", "cfg", "kind", "tag", "name", "status", "backend", "time", "exact", "model", "detail")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))

    def d(self):
        return {n: getattr(self, n) for n in self.__slots__ if getattr(self, n) is not None}


def discharge(ctxs, label, cfglabel, kinds=None, tags=None, budget=120):
    """prove every obligation; list of Rec.  Identical obligations are proved once"""
    seen, named = {}, set()
    out = []
    nbad = 0
    bud = prover.Budget(budget)
    for c in ctxs:
        if not c.assumps and not c.obls:
            continue
        for o in c.obls:
            if kinds is not None and o.kind not in kinds:
                continue
            if tags is not None and o.kind == "post" and o.info not in tags:
                continue
            key = (o.goal, o.assumps, o.kind)
            if (key, o.name) in named:
                continue
            named.add((key, o.name))
            if nbad >= 3 and o.kind == "post":
                continue
            r = seen.get(key)
            if r is None:
                r = prove_ob(o, bud)
                seen[key] = r
                nbad += r["status"] != "proved"
            rec = Rec(fn=label, cfg=cfglabel, kind=o.kind, tag=o.info, name=o.name, **r)
            out.append(rec)
    return out


def prove_ob(o, bud=None):
    bud = bud or prover.Budget(60)
    b = prover.Budget(min(60, max(3, bud.end - time.time())))
    r = prover.prove_goal(o.assumps, o.goal, b)
    res = dict(status=r["status"], backend=r.get("backend"), time=round(r.get("time", 0.0), 4),
               exact=bool(r.get("exact")))
    if r["status"] != "proved":
        res["detail"] = str([t for t in r.get("tried", [])])[:600]
        leaf = r.get("leaf")
        if leaf is not None:
            if leaf.goal is T.FALSE:
                # facts themselves must be refuted
                q = smt.quick_check(tuple(leaf.facts), T.FALSE)
                if q == "unsat":
                    res.update(status="proved", backend="z3")
                    res.pop("detail", None)
                    return res
            try:
                names = ["nz", "ny", "nx", "i0", "i1", "i2"]
                vals = smt.get_model(leaf.facts, leaf.goal, [T.var(n, "I") for n in names], timeout=4.0)
                if vals:
                    res["model"] = {n: int(v) for n, v in zip(names, vals) if v is not None}
            except Exception:
                res["model"] = None
    return res


def vacuous(ctxs):
    """names of paths whose assumptions are contradictory"""
    n = 0
    for c in ctxs:
        if c.facts() and smt.quick_check(tuple(c.facts()), T.FALSE) == "unsat":
            n += 1
    return n


def variants_of(con):
    """option variants of a known deviation (see known_findings.json)"""
    return con.known or {}


def verify(con, cfg, kinds=None, tags=None, budget=150):
    """returns dict(records, callees, notes, unsupported)"""
    log = set()
    t0 = time.time()
    res = dict(fn=con.label, cfg=cfg.label, records=[], callees=[], notes=[], trusted=[], unsupported=None, mode="")
    for modular in ((True, False) if cfg.modular else (False,)):
        log.clear()
        try:
            if modular:
                with stubs({con.gen}, log):
                    ctxs = exec_contract(con, cfg, log)
                if not log:
                    modular = False
            else:
                ctxs = exec_contract(con, cfg, log)
        except (Unsupported, T_ERR) as e:
            if modular:
                continue
            res["unsupported"] = "%s: %s" % (type(e).__name__, e)
            res["trace"] = traceback.format_exc()[-1500:]
            break
        recs = discharge(ctxs, con.label, cfg.label, kinds, tags, budget)
        bad = [r for r in recs if r.status != "proved"]
        if bad and modular:
            continue
        res["records"] = recs
        res["mode"] = "modular" if modular else "direct"
        res["callees"] = sorted("%s%s" % (n, list(o) if o else "") for n, o in log)
        res["callee_keys"] = sorted(log) if modular else []
        for c in ctxs:
            res["notes"] += [str(x) for x in c.notes]
            res["trusted"] += [str(x) for x in c.trusted]
        res["paths"] = len(ctxs)
        res["vacuous"] = vacuous(ctxs)
        res["divisors"] = sum(len(c.divisors) for c in ctxs)
        break
    res["notes"] = sorted(set(res["notes"]))
    res["trusted"] = sorted(set(res["trusted"]))
    res["time"] = round(time.time() - t0, 3)
    return res


T_ERR = (RecursionError,)
