"""The generated C kernels: parser and proof rule for parallel point loops.

The text interpreted here is produced by pystencils' own C back end from the
kernel AST that /repo's generator built on this run (the text the real run
hands to the C compiler)."""
import re

import numpy as np

from . import term as T
from . import sym as S
from .sym import Sym, Unsupported, pt, lit
from .sarr import (SArr, asarr, same_view, disjoint, push_layer, region_of, decide_eq, ncomp, unwrap, F4, F8)

TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][+-]?\d+)?f?|\.\d+(?:[eE][+-]?\d+)?f?|\d+[eE][+-]?\d+f?|\d+f?)|"
                 r"([A-Za-z_]\w*)|(<=|>=|==|!=|&&|\|\||\+=|[-+*/%<>=!?:;,(){}\[\]&]))")


def tokenize(s):
    pos, out = 0, []
    s = s.rstrip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported("C token at %r" % s[pos:pos + 30])
        pos = m.end()
        if m.group(1):
            out.append(("num", m.group(1)))
        elif m.group(2):
            out.append(("id", m.group(2)))
        else:
            out.append(("op", m.group(3)))
    out.append(("eof", ""))
    return out


TYPES = {"float", "double", "int64_t", "bool", "const", "RESTRICT", "int", "uint8_t", "unsigned"}


class Parser:
    def __init__(self, text):
        body = []
        self.omp = False
        for ln in text.splitlines():
            st = ln.strip()
            if st.startswith("#pragma omp"):
                self.omp = True
                continue
            if st.startswith("#") or st.startswith("//"):
                continue
            body.append(ln)
        self.t = tokenize("\n".join(body))
        self.i = 0

    def pk(self):
        return self.t[self.i][1] if self.t[self.i][0] != "eof" else None

    def nx(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def ex(self, v):
        r = self.nx()
        if r[1] != v:
            raise Unsupported("C parse: expected %s got %s" % (v, r[1]))

    def function(self):
        self.ex("FUNC_PREFIX")
        self.ex("void")
        self.nx()
        self.ex("(")
        params = []
        while self.pk() != ")":
            words = []
            while self.pk() not in (",", ")"):
                words.append(self.nx()[1])
            if self.pk() == ",":
                self.nx()
            params.append((words[-1], words[:-1]))
        self.ex(")")
        body = self.block()
        return params, body

    def block(self):
        self.ex("{")
        out = []
        while self.pk() != "}":
            out.append(self.stmt())
        self.ex("}")
        return out

    def stmt(self):
        p = self.pk()
        if p == "{":
            return ("block", self.block())
        if p == "for":
            self.nx()
            self.ex("(")
            while self.pk() in TYPES:
                self.nx()
            v = self.nx()[1]
            self.ex("=")
            lo = self.expr()
            self.ex(";")
            v2 = self.nx()[1]
            self.ex("<")
            hi = self.expr()
            self.ex(";")
            v3 = self.nx()[1]
            self.ex("+=")
            step = self.expr()
            self.ex(")")
            if not (v == v2 == v3):
                raise Unsupported("for loop shape")
            return ("for", v, lo, hi, step, self.block())
        if p in TYPES:
            words = []
            while self.pk() in TYPES or self.pk() == "*":
                words.append(self.nx()[1])
            name = self.nx()[1]
            self.ex("=")
            e = self.expr()
            self.ex(";")
            return ("decl", name, "*" in words, e)
        if p == "if":
            raise Unsupported("if statement in kernel")
        lhs = self.unary()
        op = self.nx()[1]
        if op not in ("=",):
            raise Unsupported("C assignment op " + op)
        e = self.expr()
        self.ex(";")
        return ("assign", lhs, e)

    def expr(self):
        return self.ternary()

    def ternary(self):
        c = self.binary(0)
        if self.pk() == "?":
            self.nx()
            a = self.ternary()
            self.ex(":")
            b = self.ternary()
            return ("ite", c, a, b)
        return c

    LV = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]

    def binary(self, lv):
        if lv == len(self.LV):
            return self.unary()
        a = self.binary(lv + 1)
        while self.t[self.i][0] == "op" and self.pk() in self.LV[lv]:
            op = self.nx()[1]
            a = ("bin", op, a, self.binary(lv + 1))
        return a

    def unary(self):
        if self.pk() == "-":
            self.nx()
            return ("neg", self.unary())
        if self.pk() == "+":
            self.nx()
            return self.unary()
        if self.pk() == "!":
            self.nx()
            return ("not", self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.nx()
        if k == "num":
            e = ("num", v)
        elif k == "id":
            e = ("id", v)
            if self.pk() == "(":
                self.nx()
                args = []
                while self.pk() != ")":
                    args.append(self.expr())
                    if self.pk() == ",":
                        self.nx()
                self.ex(")")
                e = ("call", v, args)
        elif v == "(":
            if self.pk() in TYPES:   # cast
                while self.pk() in TYPES:
                    self.nx()
                self.ex(")")
                return self.unary()
            e = self.expr()
            self.ex(")")
        else:
            raise Unsupported("C expression at " + v)
        while self.pk() == "[":
            self.nx()
            ix = self.expr()
            self.ex("]")
            e = ("idx", e, ix)
        return e


class KernelText:
    def __init__(self, text):
        self.text = text
        p = Parser(text)
        self.params, body = p.function()
        self.omp = p.omp
        self.nests = []
        self._walk(body, [], [])
        if not self.nests:
            raise Unsupported("kernel without loop nest")

    def _walk(self, body, loops, decls):
        """collect (loops, statements) nests in order"""
        decls = list(decls)
        leaf = []
        for s in body:
            if s[0] == "block":
                self._walk(s[1], loops, decls)
            elif s[0] == "for":
                if any(x[0] == "assign" for x in leaf):
                    raise Unsupported("mixed statements and loops")
                self._walk(s[5], loops + [s[1:5]], decls + leaf)
            else:
                leaf.append(s)
        if any(x[0] == "assign" for x in leaf):
            self.nests.append((loops, decls + leaf))


class FieldInfo:
    __slots__ = ("name", "dtype", "shape", "strides", "fixed", "nd")


def _affine_eval(e, env):
    """integer expression over strides/sizes/counters -> Poly"""
    k = e[0]
    if k == "num":
        if "." in e[1] or "f" in e[1]:
            raise Unsupported("float in index")
        return T.const(int(e[1]))
    if k == "id":
        if e[1] not in env:
            raise Unsupported("unknown identifier %s in index" % e[1])
        v = env[e[1]]
        if isinstance(v, tuple):
            raise Unsupported("pointer in integer expression")
        return v
    if k == "neg":
        return T.neg(_affine_eval(e[1], env))
    if k == "bin":
        a, b = _affine_eval(e[2], env), _affine_eval(e[3], env)
        op = e[1]
        if op == "+":
            return T.add(a, b)
        if op == "-":
            return T.sub(a, b)
        if op == "*":
            return T.mul(a, b)
        if op == "/":
            # C integer division of non-negative quantities
            return T.idiv(a, b)
        if op == "%":
            return T.imod(a, b)
    raise Unsupported("index expression %r" % (e,))


def _ptr_eval(e, env):
    """pointer expression -> (field, offset Poly)"""
    k = e[0]
    if k == "id":
        v = env.get(e[1])
        if isinstance(v, tuple):
            return v
        return None
    if k == "bin" and e[1] in "+-":
        l, r = _ptr_eval(e[2], env), _ptr_eval(e[3], env)
        if l is not None and r is None:
            o = _affine_eval(e[3], env)
            return l[0], T.add(l[1], o) if e[1] == "+" else T.sub(l[1], o)
        if r is not None and l is None and e[1] == "+":
            return r[0], T.add(r[1], _affine_eval(e[2], env))
    return None


_FUNCS = {"sin": T.sin, "cos": T.cos, "sqrt": T.sqrt, "log": T.log, "fabs": T.pabs, "abs": T.pabs,
          "exp": lambda p: T.app("exp", (p,))}


class Kernel:
    """symbolic counterpart of the compiled pystencils kernel function"""
    _vf_kernel = True
    required = {}

    def __init__(self, ast, label):
        from pystencils.backends.cbackend import generate_c
        from pystencils.enums import Backend
        self.label = label
        self.text = generate_c(ast, dialect=Backend.C)
        self.k = KernelText(self.text)
        self.ast = ast
        self.fields = {}
        for f in sorted(ast.fields_accessed, key=lambda f: f.name):
            fi = FieldInfo()
            fi.name = f.name
            fi.dtype = np.dtype(f.dtype.numpy_dtype)
            fi.nd = f.spatial_dimensions
            if f.index_dimensions:
                raise Unsupported("index dimensions")
            fi.fixed = bool(f.has_fixed_shape)
            fi.shape = tuple(int(x) for x in f.shape) if fi.fixed else None
            fi.strides = tuple(int(x) for x in f.strides) if fi.fixed else None
            self.fields[f.name] = fi
        self.analyse()

    # ---- static analysis independent of the arguments
    def analyse(self):
        self.scalars = []
        for name, words in self.k.params:
            if name.startswith("_data_") or name.startswith("_size_") or name.startswith("_stride_"):
                continue
            self.scalars.append(name)
        # single-precision arithmetic anywhere in the generated text
        self.lossy = ""
        for m in re.finditer(r"[A-Za-z_]\w*|\d[\w.]*(?:[eE][+-]?\d+)?f?", self.text):
            w = m.group(0)
            if w == "float":
                self.lossy = "uses type float"
            elif w[:-1] in _FUNCS and w.endswith("f"):
                self.lossy = "calls " + w
            elif w[0].isdigit() and w.endswith("f") and not w.startswith("0x"):
                try:
                    v = float(w[:-1])
                except ValueError:
                    continue
                if float(np.float32(v)) != v:
                    self.lossy = "single-precision literal " + w

    def env0(self):
        env = {}
        for name, words in self.k.params:
            if name.startswith("_data_"):
                f = name[6:]
                if f not in self.fields:
                    raise Unsupported("data pointer " + name)
                env[name] = (f, T.const(0))
            elif name.startswith("_stride_"):
                env[name] = T.var(name, "I")
            elif name.startswith("_size_"):
                env[name] = T.var(name, "I")
        return env

    def decode(self, fname, off, ctrs):
        """linear offset -> multi-index (tuple of Poly in the counters)"""
        fi = self.fields[fname]
        nd = fi.nd
        if not fi.fixed:
            idx = [dict() for _ in range(nd)]
            names = {}
            for d in range(nd):
                v = T.var("_stride_%s_%d" % (fname, d), "I")
                names[next(iter(v.terms))[0][0]] = d
            for m, c in off.terms.items():
                ds = [i for i, e in m if i in names]
                if len(ds) == 1 and dict(m)[ds[0]] == 1:
                    mm = tuple(x for x in m if x[0] != ds[0])
                    idx[names[ds[0]]][mm] = c
                else:
                    raise Unsupported("address not linear in the strides: %s" % off)
            return tuple(T.mk_poly("I", d) for d in idx)
        # fixed strides: counters carry the stride as coefficient
        idx = [T.const(0)] * nd
        rest = T.const(0)
        cid = {next(iter(T.var(c, "I").terms))[0][0]: c for c in ctrs}
        for m, c in off.terms.items():
            if m == ():
                rest = T.add(rest, T.const(int(c)))
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in cid:
                cands = [d for d in range(nd) if fi.strides[d] == int(c)]
                if not cands:
                    raise Unsupported("coefficient %s is not a stride" % c)
                name = cid[m[0][0]]
                d = cands[0]
                pref = [x for x in cands if name == "ctr_%d" % x]
                if pref:
                    d = pref[0]
                idx[d] = T.add(idx[d], T.var(name, "I"))
            else:
                raise Unsupported("fixed-size address %s" % off)
        r = int(T.const_val(rest))
        order = sorted(range(nd), key=lambda d: -fi.strides[d])
        for d in order:
            s = fi.strides[d]
            q = (2 * r + s) // (2 * s) if s > 1 else r
            r -= q * s
            idx[d] = T.add(idx[d], T.const(q))
        return tuple(idx)

    # ---- call
    def __call__(self, **kw):
        c = S.ctx()
        args = {}
        for f, fi in self.fields.items():
            if f not in kw:
                raise KeyError("Missing argument '%s'" % f)
            a = kw[f]
            if isinstance(a, np.ndarray):
                raise Unsupported("concrete array passed to kernel")
            if not isinstance(a, SArr):
                raise TypeError("kernel field argument %s is %r" % (f, type(a)))
            if a.buf is None:
                a.materialise()
            args[f] = a
        shape = None
        for f, fi in self.fields.items():
            a = args[f]
            if a.dtype != fi.dtype:
                raise ValueError("Wrong data type of array argument '%s'" % f)
            if a.ndim != fi.nd:
                raise ValueError("Wrong number of dimensions of '%s'" % f)
            req = self.required.get(f)
            if req is not None:
                shp, strides = req
                st = elem_strides(a)
                if st is None:
                    raise Unsupported("layout of array '%s'" % f)
                dense, unit = [T.const(1)], T.const(1)
                for x in reversed(shp[1:]):
                    dense.insert(0, T.mul(dense[0], x))
                if strides is not None:
                    unit, dense = strides
                for d in range(fi.nd):
                    if not decide_eq(a._shape[d], shp[d]):
                        raise ValueError("Passed array '%s' has wrong shape" % f)
                    if not decide_eq(T.mul(unit, st[d]), dense[d]):
                        raise ValueError("Passed array '%s' has wrong strides" % f)
            if fi.fixed:
                for d in range(fi.nd):
                    if not decide_eq(a._shape[d], T.const(fi.shape[d])):
                        raise ValueError("Passed array '%s' has wrong shape" % f)
                st = elem_strides(a)
                if st is None:
                    raise Unsupported("layout of array '%s'" % f)
                if not all(decide_eq(x, T.const(y)) for x, y in zip(st, fi.strides)):
                    raise ValueError("Passed array '%s' has wrong strides" % f)
            else:
                if shape is None:
                    shape = a._shape
                else:
                    for x, y in zip(shape, a._shape):
                        if not decide_eq(x, y):
                            raise ValueError("All passed arrays have to have the same size")
        real = getattr(c, "real", None)
        if real is not None:
            ok = not (real == F8 and self.lossy)
            c.oblige("precision", "%s: arithmetic in the requested precision%s" % (
                self.label, "" if ok else " (%s)" % self.lossy), T.TRUE if ok else T.FALSE)
        env = self.env0()
        env.update((s, p) for s, p in S.SYMREG.items() if p.sort == "I")
        for f, a in args.items():
            for d in range(a.ndim):
                env["_size_%s_%d" % (f, d)] = a._shape[d]
        scal = {}
        for s in self.scalars:
            if s in kw:
                v = kw[s]
                if isinstance(v, SArr) and v.ndim == 0:
                    v = unwrap(v.at(()))
                scal[s] = T.to_real(pt(v))
            elif s in S.SYMREG:
                scal[s] = T.to_real(S.SYMREG[s])
            else:
                raise KeyError("Missing argument '%s'" % s)
        for loops, stmts in self.k.nests:
            self.run_nest(c, loops, stmts, env, scal, args)

    def run_nest(self, c, loops, stmts, env, scal, args):
        env = dict(env)
        ctrs = [l[0] for l in loops]
        los, his = [], []
        for v, lo, hi, step in loops:
            if step != ("num", "1"):
                raise Unsupported("loop step")
            los.append(_affine_eval(lo, env))
            his.append(_affine_eval(hi, env))
            env[v] = T.var(v, "I")
        cv = [env[v] for v in ctrs]
        dom = T.band(*([T.le(l, x) for l, x in zip(los, cv)] + [T.lt(x, h) for h, x in zip(his, cv)]))
        # resolve statements
        accesses = []   # (kind, field, idx)
        writes = []     # (field, idx polys, expr-closure)
        local = {}
        envp = dict(env)

        def compile_expr(e):
            """-> function(cs: tuple of counter Polys, reader) -> Poly"""
            k = e[0]
            if k == "num":
                if e[1].endswith("f"):
                    p = lit(float(e[1][:-1]))
                elif "." in e[1] or "e" in e[1]:
                    p = lit(float(e[1]))
                else:
                    p = T.const(int(e[1]))
                return lambda st: p
            if k == "id":
                n = e[1]
                if n in local_names:
                    return lambda st: st["loc"][n]
                if n in scal:
                    p = scal[n]
                    return lambda st: p
                if n in ctrs:
                    j = ctrs.index(n)
                    return lambda st: st["c"][j]
                if n in env and not isinstance(env[n], tuple):
                    p = env[n]
                    return lambda st: p
                if n == "M_PI":
                    return lambda st: T.pi()
                raise Unsupported("identifier " + n)
            if k == "neg":
                f = compile_expr(e[1])
                return lambda st: T.neg(f(st))
            if k == "bin":
                op = e[1]
                if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                    g = compile_bool(e)
                    return lambda st: T.ite(g(st), T.const(1), T.const(0))
                f, g = compile_expr(e[2]), compile_expr(e[3])
                if op == "+":
                    return lambda st: T.add(f(st), g(st))
                if op == "-":
                    return lambda st: T.sub(f(st), g(st))
                if op == "*":
                    return lambda st: T.mul(f(st), g(st))
                if op == "/":
                    def dv(st):
                        a, b = f(st), g(st)
                        if a.sort == "I" and b.sort == "I":
                            raise Unsupported("integer division in kernel")
                        return T.div(a, b)
                    return dv
                raise Unsupported("C operator " + op)
            if k == "ite":
                b, f, g = compile_bool(e[1]), compile_expr(e[2]), compile_expr(e[3])
                return lambda st: T.ite(b(st), f(st), g(st))
            if k == "call":
                n = e[1]
                fs = [compile_expr(x) for x in e[2]]
                base = n[:-1] if n.endswith("f") and n[:-1] in _FUNCS else n
                if base in _FUNCS and len(fs) == 1:
                    op = _FUNCS[base]
                    f0 = fs[0]
                    return lambda st: op(T.to_real(f0(st)))
                if base in ("pow", "powf"):
                    return lambda st: S.ppow(fs[0](st), T.const_val(fs[1](st)) if T.is_const(fs[1](st)) else _nope())
                if base in ("fmax", "fmaxf", "max"):
                    return lambda st: T.pmax(fs[0](st), fs[1](st))
                if base in ("fmin", "fminf", "min"):
                    return lambda st: T.pmin(fs[0](st), fs[1](st))
                raise Unsupported("C function " + n)
            if k == "idx":
                f, idx = resolve(e)
                accesses.append(("r", f, idx))
                return lambda st: st["read"](f, idx, st)
            raise Unsupported("C expression " + k)

        def compile_bool(e):
            k = e[0]
            if k == "not":
                g = compile_bool(e[1])
                return lambda st: T.bnot(g(st))
            if k == "bin":
                op = e[1]
                if op in ("&&", "||"):
                    f, g = compile_bool(e[2]), compile_bool(e[3])
                    h = T.band if op == "&&" else T.bor
                    return lambda st: h(f(st), g(st))
                if op in ("<", ">", "<=", ">=", "==", "!="):
                    f, g = compile_expr(e[2]), compile_expr(e[3])
                    return {"<": lambda st: T.lt(f(st), g(st)), ">": lambda st: T.lt(g(st), f(st)),
                            "<=": lambda st: T.le(f(st), g(st)), ">=": lambda st: T.le(g(st), f(st)),
                            "==": lambda st: T.eq(f(st), g(st)),
                            "!=": lambda st: T.bnot(T.eq(f(st), g(st)))}[op]
            f = compile_expr(e)
            return lambda st: T.bnot(T.eq0(f(st)))

        def resolve(e):
            ptr = _ptr_eval(e[1], envp)
            if ptr is None:
                raise Unsupported("array base")
            off = T.add(ptr[1], _affine_eval(e[2], envp))
            return ptr[0], self.decode(ptr[0], off, ctrs)

        local_names = set()
        prog = []
        for s in stmts:
            if s[0] == "decl":
                if s[2]:
                    pv = _ptr_eval(s[3], envp)
                    if pv is None:
                        raise Unsupported("pointer declaration")
                    envp[s[1]] = pv
                else:
                    f = compile_expr(s[3])
                    local_names.add(s[1])
                    prog.append(("loc", s[1], f))
            else:
                lhs = s[1]
                f = compile_expr(s[2])
                if lhs[0] == "idx":
                    fld, idx = resolve(lhs)
                    accesses.append(("w", fld, idx))
                    prog.append(("w", fld, idx, f))
                elif lhs[0] == "id" and lhs[1] in local_names:
                    prog.append(("loc", lhs[1], f))
                else:
                    raise Unsupported("assignment target")

        # --- memory safety
        seen = set()
        for k, f, idx in accesses:
            a = args[f]
            g = T.band(*([T.le(T.const(0), i) for i in idx] + [T.lt(i, n) for i, n in zip(idx, a._shape)]))
            key = (f, g)
            if key in seen:
                continue
            seen.add(key)
            c.oblige("bounds", "%s: access %s%s in bounds" % (self.label, f, list(map(str, idx))),
                     T.implies(dom, g))
        # --- independence of iterations
        sub = {next(iter(x.terms))[0][0]: T.var(n + "'", "I") for n, x in zip(ctrs, cv)}
        dom2 = T.rewrite_bool(dom, lambda a: sub.get(a.id), {})
        differ = T.bnot(T.band(*[T.eq(x, T.var(n + "'", "I")) for n, x in zip(ctrs, cv)]))
        done = set()
        for w in [a for a in accesses if a[0] == "w"]:
            for o in accesses:
                aw, ao = args[w[1]], args[o[1]]
                if aw.buf is not ao.buf:
                    continue
                key = (w[1], w[2], o[1], o[2])
                if key in done:
                    continue
                done.add(key)
                if same_view(aw, ao):
                    i2 = [T.subst_poly(x, sub) for x in o[2]]
                    hit = T.band(*[T.eq(x, y) for x, y in zip(w[2], i2)])
                    c.oblige("race", "%s: write %s%s vs %s %s%s of another iteration" % (
                        self.label, w[1], list(map(str, w[2])), "write" if o[0] == "w" else "read",
                        o[1], list(map(str, o[2]))),
                        T.bnot(T.band(dom, dom2, differ, hit)))
                    if w[1] != o[1]:
                        c.notes.add("in-place call: %s and %s are the same array (RESTRICT aliasing at the "
                                    "same index assumed benign)" % (w[1], o[1]))
                else:
                    g = disjoint(aw, ao)
                    c.oblige("race", "%s: arguments %s and %s do not overlap" % (self.label, w[1], o[1]), g)
        # --- functional effect
        snaps = {f: a.getter() for f, a in args.items()}
        nonlin = {}

        def shift_of(idx):
            """idx = counters + constant offsets"""
            off = []
            for d, p in enumerate(idx):
                off.append(p)
            return tuple(off)

        results = {}

        def run(cs):
            r = results.get(cs)
            if r is not None:
                return r
            env_c = {next(iter(x.terms))[0][0]: y for x, y in zip(cv, cs)}
            written = {}

            def read(f, idx, st):
                a = args[f]
                key = (view_key(a), idx)
                if key in written:
                    return written[key]
                at = tuple(T.subst_poly(i, env_c) for i in idx)
                return snaps[f](at)
            st = {"c": cs, "loc": {}, "read": read}
            vals = []
            for p in prog:
                if p[0] == "loc":
                    st["loc"][p[1]] = p[2](st)
                else:
                    v = T.to_real(p[3](st)) if args[p[1]].dtype.kind == "f" else p[3](st)
                    written[(view_key(args[p[1]]), p[2])] = v
                    vals.append(v)
            results[cs] = vals
            return vals

        nw = 0
        for p in prog:
            if p[0] != "w":
                continue
            f, idx = p[1], p[2]
            a = args[f]
            # invert idx: each counter appears exactly once as ctr+const
            inv = {}
            conds_const = []
            for d, q in enumerate(idx):
                hit = None
                for j, x in enumerate(cv):
                    df = T.sub(q, x)
                    if not (T.poly_vars(df) & {next(iter(y.terms))[0][0] for y in cv}):
                        hit = (j, df)
                        break
                if hit is None:
                    if T.poly_vars(q) & {next(iter(y.terms))[0][0] for y in cv}:
                        raise Unsupported("write index %s" % q)
                    conds_const.append((d, q))
                else:
                    inv[hit[0]] = (d, hit[1])
            if len(inv) != len(cv):
                raise Unsupported("write index does not determine the iteration")
            region, inverse = region_of(a)

            def mk(k=nw, inv=inv, conds_const=conds_const, region=region, inverse=inverse, a=a):
                def cs_of(vi):
                    return tuple(T.sub(vi[inv[j][0]], inv[j][1]) for j in range(len(cv)))

                def reg(b):
                    vi = inverse(b)
                    cs = cs_of(vi)
                    conds = [region(b)]
                    for j, (x, l, h) in enumerate(zip(cs, los, his)):
                        d, off = inv[j]
                        zero = T.is_const(off) and T.const_val(off) == 0
                        # limits that coincide with the extent of the view add nothing: every
                        # access lies inside its view (obligation 'bounds')
                        if not (zero and T.is_const(l) and T.const_val(l) <= 0):
                            conds.append(T.le(l, x))
                        if not (zero and h is a._shape[d]):
                            conds.append(T.lt(x, h))
                    conds += [T.eq(vi[d], q) for d, q in conds_const]
                    # bounds already implied by the view region are dropped syntactically
                    return T.band(*conds)

                def val(b, comp=0):
                    if a.comp is not None and comp != a.comp:
                        return None
                    return run(cs_of(inverse(b)))[k]
                return reg, val
            reg, val = mk()
            push_layer(a.buf, reg, val)
            nw += 1


def _nope():
    raise Unsupported("pow with symbolic exponent")


def view_key(a):
    return (id(a.buf), a.comp, tuple(a.vmap), a._shape)


def elem_strides(a):
    """strides of the view in scalar elements (base buffers are C-contiguous)"""
    if a.buf is None:
        return None
    base = [T.const(ncomp(a.buf.dtype) if a.comp is not None else 1)]
    for n in reversed(a.buf.shape[1:]):
        base.append(T.mul(base[-1], S.pt(n)))
    base.reverse()
    out = [None] * a.ndim
    for d, (o, st, ax) in enumerate(a.vmap):
        if ax is not None:
            if out[ax] is not None:
                return None
            out[ax] = T.mul(S.pt(st), base[d])
    return out if all(x is not None for x in out) else None


def contiguous(a):
    if ncomp(a.dtype) != 1 and a.comp is not None:
        return False
    if a.buf is None:
        return True
    st = elem_strides(a)
    if st is None:
        return False
    want = T.const(1)
    for n, s in reversed(list(zip(a._shape, st))):
        if T.is_const(n) and T.const_val(n) == 1:
            continue
        if not decide_eq(s, want):
            return False
        want = T.mul(want, n)
    return True
