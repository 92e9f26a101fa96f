"""Symbolic scalars, path exploration and obligations."""
from fractions import Fraction as Fr
import math
import numpy as np

from . import term as T
from . import smt


class Unsupported(Exception):
    """the code left the fragment the engine can execute symbolically"""


class PathInfeasible(Exception):
    pass


class Obligation:
    __slots__ = ("kind", "name", "assumps", "goal", "extra", "result", "info", "replay")

    def __init__(self, kind, name, assumps, goal, extra=(), info=None):
        self.kind, self.name, self.assumps, self.goal = kind, name, tuple(assumps), goal
        self.extra, self.info, self.result, self.replay = tuple(extra), info, None, None


class Ctx:
    def __init__(self):
        self.assumps = []
        self.path = []
        self.decisions = []
        self.pos = 0
        self.pending = []
        self.obls = []
        self.divisors = {}      # condition -> assumption sets under which the code needs it
        self.specified = set()  # conditions the contract's own formulas need
        self.in_spec = False
        self.notes = set()
        self.trusted = set()
        self.counter = 0
        self.npaths = 0
        self.buffers = []
        self.paths_left = 64

    # ---- fresh names are deterministic along a path
    def fresh(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def assume(self, b):
        b = bt(b)
        if b is T.TRUE:
            return
        self.assumps.append(b)

    def defined(self, cond):
        """the operation just performed is defined only if cond holds"""
        if cond is T.TRUE:
            return
        if self.in_spec:
            self.specified.add(cond)
            return
        f = tuple(self.facts())
        old = self.divisors.setdefault(cond, [])
        if len(old) < 8 and f not in old:
            old.append(f)

    def facts(self):
        return self.assumps + self.path

    def implied(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        f = self.facts()
        if b in f:
            return True
        return smt.quick_check(tuple(relevant(f, [b])), b) == "unsat"

    def branch(self, b):
        """truth value of b on this path; forks when undetermined."""
        b = bt(b)
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        if self.implied(b):
            return True
        nb = T.bnot(b)
        if self.implied(nb):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(True)
            self.pending.append(self.decisions[:-1] + [False])
            if len(self.pending) > self.paths_left:
                raise Unsupported("too many paths")
        self.pos += 1
        self.path.append(b if d else nb)
        return d

    def oblige(self, kind, name, goal, extra=(), info=None):
        self.obls.append(Obligation(kind, name, self.facts(), bt(goal), extra, info))

    def require_now(self, kind, name, goal):
        """obligation that also becomes a fact afterwards"""
        g = bt(goal)
        self.oblige(kind, name, g)
        if g is not T.TRUE and g not in self.assumps:
            self.assumps.append(g)


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


def relevant(facts, goals):
    return facts


def run_paths(fn, setup=None, max_paths=64):
    """run fn() once per feasible path; returns list of Ctx"""
    global CTX
    todo = [[]]
    done = []
    while todo:
        dec = todo.pop()
        c = Ctx()
        c.decisions = list(dec)
        CTX = c
        T.defined_hook[:] = [c.defined]
        try:
            fn(c)
        except PathInfeasible:
            pass
        finally:
            CTX = None
            T.defined_hook[:] = []
        todo.extend(c.pending)
        done.append(c)
        if len(done) > max_paths:
            raise Unsupported("path explosion")
    return done


# ------------------------------------------------------------------ literals
def _round_interval(x, single):
    if single:
        f = np.float32(x)
        lo = Fr(float(np.nextafter(f, np.float32(-np.inf))))
        hi = Fr(float(np.nextafter(f, np.float32(np.inf))))
        v = Fr(float(f))
    else:
        v = Fr(float(x))
        lo = Fr(float(np.nextafter(np.float64(x), -np.inf)))
        hi = Fr(float(np.nextafter(np.float64(x), np.inf)))
    return (v + lo) / 2, (v + hi) / 2, v


def _simplest(lo, hi):
    """simplest rational in [lo,hi], 0<lo<=hi"""
    fl = lo.__floor__()
    if fl == lo:
        return Fr(fl)
    if fl + 1 <= hi:
        return Fr(fl + 1)
    r = _simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_PI_LO = Fr("3.14159265358979323846264338327950288")
_lit_cache = {}
INFINITY = [False]      # np.inf may be stored (only ever divided by)


def lit(x, single=False, widen=1):
    """read a float literal as the simplest real in its rounding interval;
    multiples r*pi and r/pi with small r are recognised."""
    key = (float(x), single, widen)
    r = _lit_cache.get(key)
    if r is None:
        r = _lit(float(x), single, widen)
        _lit_cache[key] = r
    return r


def _lit(x, single, widen):
    if x == 0:
        return T.const(0, "R")
    if math.isinf(x) and INFINITY[0]:
        return T.scale(T.INF, 1 if x > 0 else -1)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("inf/nan literal")
    if x == int(x) and abs(x) < 2 ** 24:
        return T.const(int(x), "R")
    s = 1 if x > 0 else -1
    lo, hi, v = _round_interval(abs(x), single)
    if widen > 1:
        lo, hi = v - (v - lo) * widen, v + (hi - v) * widen
    q = _simplest(lo, hi)
    small = q.numerator.bit_length() + q.denominator.bit_length()
    best = (small, T.const(q * s, "R"))
    lim = 24 if not single else 14
    if small > lim:
        for e, mk in ((1, lambda r: T.scale(T.pi(), r, "R")),
                      (-1, lambda r: T.mul(T.const(r, "R"), T.inv(T.pi()))),
                      (2, lambda r: T.scale(T.mul(T.pi(), T.pi()), r, "R"))):
            l2, h2 = lo / _PI_LO ** e, hi / _PI_LO ** e
            if l2 > h2:
                l2, h2 = h2, l2
            r = _simplest(l2, h2)
            n = r.numerator.bit_length() + r.denominator.bit_length()
            if n <= lim and n + 6 < best[0]:
                best = (n, mk(r * s))
                break
    if best[0] > lim:
        # no small rational or multiple of pi: the exact value of the float
        return T.const(v * s, "R") if not widen > 1 else best[1]
    return best[1]


# ------------------------------------------------------------------- scalars
def pt(x):
    """Python/numpy/Sym scalar -> Poly"""
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, SBool):
        return T.ite(x.b, T.const(1, "I"), T.const(0, "I"))
    if isinstance(x, T.Poly):
        return x
    if isinstance(x, (bool, np.bool_)):
        return T.const(int(x), "I")
    if isinstance(x, (int, np.integer)):
        return T.const(int(x), "I")
    if isinstance(x, Fr):
        return T.const(x, "R")
    if isinstance(x, np.float32):
        return lit(x, single=True)
    if isinstance(x, (float, np.floating)):
        return lit(x)
    if hasattr(x, "_vf_scalar"):
        return x._vf_scalar()
    raise Unsupported("not a symbolic scalar: %r" % type(x))


def bt(x):
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, T.BTerm):
        return x
    if isinstance(x, (bool, np.bool_)):
        return T.TRUE if x else T.FALSE
    if isinstance(x, Sym):
        return T.bnot(T.eq0(x.p))
    raise Unsupported("not a symbolic bool: %r" % type(x))


SCALARS = (int, float, Fr, np.integer, np.floating, np.bool_)


def _isnum(x):
    return isinstance(x, SCALARS) or isinstance(x, (Sym, SBool)) or hasattr(x, "_vf_scalar")


SYMREG = {}  # sympy symbol name -> Poly


def token(table, p):
    """a word standing for the number p in text"""
    w = "\u27e6%d\u27e7" % len(table)
    table[w] = p
    return w


class Sym:
    """symbolic scalar"""
    __slots__ = ("p",)
    __array_ufunc__ = None
    is_sym = True

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "Sym(%s)" % self.p

    def __hash__(self):
        return hash(self.p)

    def __add__(self, o):
        return Sym(T.add(self.p, pt(o))) if _isnum(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return Sym(T.sub(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __rsub__(self, o):
        return Sym(T.sub(pt(o), self.p)) if _isnum(o) else NotImplemented

    def __mul__(self, o):
        return Sym(T.mul(self.p, pt(o))) if _isnum(o) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Sym(T.div(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __rtruediv__(self, o):
        return Sym(T.div(pt(o), self.p)) if _isnum(o) else NotImplemented

    def __floordiv__(self, o):
        return Sym(floordiv(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __rfloordiv__(self, o):
        return Sym(floordiv(pt(o), self.p)) if _isnum(o) else NotImplemented

    def __mod__(self, o):
        return Sym(mod(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __rmod__(self, o):
        return Sym(mod(pt(o), self.p)) if _isnum(o) else NotImplemented

    def __pow__(self, o):
        return Sym(ppow(self.p, o))

    def __rpow__(self, o):
        if T.is_const(self.p) and T.const_val(self.p).denominator == 1:
            return Sym(T.power(pt(o), int(T.const_val(self.p))))
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return Sym(T.neg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(T.pabs(self.p))

    def __eq__(self, o):
        return SBool(T.eq(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __ne__(self, o):
        return SBool(T.bnot(T.eq(self.p, pt(o)))) if _isnum(o) else NotImplemented

    def __lt__(self, o):
        return SBool(T.lt(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __le__(self, o):
        return SBool(T.le(self.p, pt(o))) if _isnum(o) else NotImplemented

    def __gt__(self, o):
        return SBool(T.lt(pt(o), self.p)) if _isnum(o) else NotImplemented

    def __ge__(self, o):
        return SBool(T.le(pt(o), self.p)) if _isnum(o) else NotImplemented

    def __bool__(self):
        return ctx().branch(T.bnot(T.eq0(self.p)))

    def __index__(self):
        if T.is_const(self.p):
            v = T.const_val(self.p)
            if v.denominator == 1:
                return int(v)
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        if T.is_const(self.p):
            return int(T.const_val(self.p))
        raise Unsupported("int() of symbolic value")

    def __float__(self):
        if T.is_const(self.p):
            return float(T.const_val(self.p))
        raise Unsupported("float() of symbolic value")

    def __format__(self, spec):
        t = getattr(CTX, "tokens", None)
        if spec and t is not None and not (spec == "d" and self.p.sort == "I"):
            # digits are lost: some other number
            return token(t, T.app("format", (T.to_real(self.p),), "R") if spec else self.p)
        return self.__str__()

    def __str__(self):
        if T.is_const(self.p):
            v = T.const_val(self.p)
            return str(int(v)) if v.denominator == 1 else str(float(v))
        t = getattr(CTX, "tokens", None)
        if t is not None:
            return token(t, self.p)
        return "<sym %s>" % self.p

    def _sympy_(self):
        import sympy as sp
        if T.is_const(self.p):
            v = T.const_val(self.p)
            return sp.Rational(v.numerator, v.denominator)
        n = next((k for k, v in SYMREG.items() if v is self.p), None)
        if n is None:
            n = "vfsym%d" % len(SYMREG)
            SYMREG[n] = self.p
        if self.p.sort == "I":
            # usable in loop bounds
            from pystencils import TypedSymbol
            return TypedSymbol(n, "int64")
        return sp.Symbol(n, real=True)

    # numpy scalar-ish API
    def astype(self, dt):
        return self

    def item(self):
        return self

    def is_integer(self):
        return self.p.sort == "I"

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


class SBool:
    __slots__ = ("b",)
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "SBool(%s)" % self.b

    def __bool__(self):
        return ctx().branch(self.b)

    def __and__(self, o):
        return SBool(T.band(self.b, bt(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(T.bor(self.b, bt(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(T.bnot(self.b))

    def __eq__(self, o):
        a, b = self.b, bt(o)
        return SBool(T.bor(T.band(a, b), T.band(T.bnot(a), T.bnot(b))))

    def __hash__(self):
        return hash(self.b)

    def _num(self):
        return Sym(pt(self))

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        return T.idiv(a, b)
    return T.floor(T.div(a, b))


def mod(a, b):
    if a.sort == "I" and b.sort == "I":
        return T.imod(a, b)
    return T.sub(a, T.mul(b, T.floor(T.div(a, b))))


def ppow(a, e):
    if isinstance(e, Sym):
        if not T.is_const(e.p):
            raise Unsupported("symbolic exponent")
        e = T.const_val(e.p)
    if isinstance(e, (int, np.integer)):
        return T.power(a, int(e))
    e = Fr(float(e)) if not isinstance(e, Fr) else e
    if e.denominator == 1:
        return T.power(a, int(e))
    if e == Fr(1, 2):
        return T.sqrt(a)
    if e == Fr(-1, 2):
        return T.inv(T.sqrt(a))
    if e.denominator == 2:
        return T.mul(T.power(a, int(e - Fr(1, 2))), T.sqrt(a))
    raise Unsupported("fractional power")


def ivar(name):
    return Sym(T.var(name, "I"))


def rvar(name):
    return Sym(T.var(name, "R"))


def sym(x):
    return x if isinstance(x, (Sym, SBool)) else Sym(pt(x))
