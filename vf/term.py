"""Hash-consed terms: polynomials over atoms (Int/Real), and Booleans.

A Poly is a canonical sum of monomials; equal polynomials are the same object.
Atoms: variables, uninterpreted applications, if-then-else, inverse of a
polynomial, integer division/modulo, floor, formal sums.
Everything here is exact arithmetic over Q; floating point is read as real.
"""
from fractions import Fraction as Fr
import math

_atoms = {}
_atom_list = []
_polys = {}


class Atom:
    __slots__ = ("kind", "sort", "data", "id", "free")

    def __repr__(self):
        return atom_str(self)


def mk_atom(kind, sort, data):
    key = (kind, sort, data)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.sort, a.data, a.id = kind, sort, data, len(_atom_list)
        a.free = None
        _atoms[key] = a
        _atom_list.append(a)
    return a


class Poly:
    __slots__ = ("sort", "terms", "_h", "key")

    def __repr__(self):
        return poly_str(self)

    def __hash__(self):
        return self._h

    # identity equality (hash-consed)


def mk_poly(sort, d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    key = (sort, items)
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.sort = sort
        p.terms = dict(items)
        p.key = items
        p._h = hash(key)
        _polys[key] = p
    return p


def const(v, sort=None):
    if not isinstance(v, Fr):
        v = Fr(v)
    if sort is None:
        sort = "I" if v.denominator == 1 else "R"
    return mk_poly(sort, {(): v} if v != 0 else {})


def is_const(p):
    return not p.terms or (len(p.terms) == 1 and () in p.terms)


def const_val(p):
    return p.terms.get((), Fr(0))


def from_atom(a, e=1):
    return mk_poly(a.sort, {((a.id, e),): Fr(1)})


def var(name, sort):
    return from_atom(mk_atom("var", sort, name))


def join(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def to_real(p):
    return p if p.sort == "R" else mk_poly("R", p.terms)


def add(a, b):
    if not a.terms:
        return b if (b.sort == "R" or a.sort == "I") else to_real(b)
    if not b.terms:
        return a if (a.sort == "R" or b.sort == "I") else to_real(a)
    d = dict(a.terms)
    for m, c in b.terms.items():
        n = d.get(m, 0) + c
        if n == 0:
            del d[m]
        else:
            d[m] = n
    return mk_poly(join(a, b), d)


def scale(a, k, sort=None):
    k = Fr(k)
    if k == 1 and (sort is None or sort == a.sort):
        return a
    if sort is None:
        sort = a.sort if k.denominator == 1 else "R"
    if k == 0:
        return const(0, sort)
    return mk_poly(sort, {m: c * k for m, c in a.terms.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """product of monomials; returns (mono, extra Poly or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for i, e in m2:
        n = d.get(i, 0) + e
        if n == 0:
            del d[i]
        else:
            d[i] = n
    extra = None
    for i in list(d):
        a = _atom_list[i]
        e = d[i]
        if a.kind == "sqrt" and (e >= 2 or e <= -2):
            k = int(e / 2)
            r = e - 2 * k
            if r:
                d[i] = r
            else:
                del d[i]
            q = power(a.data[0], k)
            extra = q if extra is None else mul(extra, q)
    return tuple(sorted(d.items())), extra


def mul(a, b):
    s = join(a, b)
    if not a.terms or not b.terms:
        return const(0, s)
    if is_const(a):
        return scale(b, const_val(a), s)
    if is_const(b):
        return scale(a, const_val(b), s)
    d = {}
    rest = None
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m, ex = _mono_mul(m1, m2)
            if ex is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                t = mul(mk_poly("R", {m: c1 * c2}), to_real(ex))
                rest = t if rest is None else add(rest, t)
    r = mk_poly(s, d)
    if rest is not None:
        r = add(r, rest)
    return cancel_inv(r)


def cancel_inv(r):
    """sum of terms sharing inv-atom(p): cancel exact multiples of p."""
    invs = set()
    for m in r.terms:
        for i, e in m:
            if _atom_list[i].kind == "inv":
                invs.add(i)
    if not invs:
        return r
    for i in sorted(invs):
        p = _atom_list[i].data[0]
        # group by power of inv
        groups = {}
        for m, c in r.terms.items():
            e = dict(m).get(i, 0)
            mm = tuple(x for x in m if x[0] != i)
            groups.setdefault(e, {})[mm] = c
        changed = False
        for e in sorted((k for k in groups if k > 0), reverse=True):
            q = mk_poly("R", groups[e])
            quo = exact_div(q, p)
            if quo is not None:
                changed = True
                g = groups.setdefault(e - 1, {})
                for mm, c in quo.terms.items():
                    g[mm] = g.get(mm, 0) + c
                groups[e] = {}
        if changed:
            d = {}
            for e, g in groups.items():
                for mm, c in g.items():
                    if c == 0:
                        continue
                    if e:
                        mm = tuple(sorted(mm + ((i, e),)))
                    d[mm] = d.get(mm, 0) + c
            r = mk_poly("R", d)
    return r


def _lead(terms):
    return max(terms, key=lambda m: (sum(e for _, e in m), m))


def exact_div(q, p):
    """q / p if p divides q exactly (monomial content ignored), else None."""
    if not q.terms:
        return q
    if len(q.terms) < len(p.terms):
        return None
    # shift q by negative exponents to make it polynomial
    mins = {}
    for m in q.terms:
        for i, e in m:
            if e < 0:
                mins[i] = min(mins.get(i, 0), e)
    shift = tuple(sorted((i, -e) for i, e in mins.items()))
    rem = dict(q.terms)
    if shift:
        rem = {_plain_mono_mul(m, shift): c for m, c in rem.items()}
    lm = _lead(p.terms)
    lc = p.terms[lm]
    lmd = dict(lm)
    if any(e < 0 for m in p.terms for _, e in m):
        return None
    out = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        m = _lead(rem)
        md = dict(m)
        for i, e in lmd.items():
            n = md.get(i, 0) - e
            if n < 0:
                return None
            if n == 0:
                md.pop(i)
            else:
                md[i] = n
        tm = tuple(sorted(md.items()))
        tc = rem[m] / lc
        out[tm] = out.get(tm, 0) + tc
        for pm, pc in p.terms.items():
            k = _plain_mono_mul(pm, tm)
            n = rem.get(k, 0) - pc * tc
            if n == 0:
                rem.pop(k, None)
            else:
                rem[k] = n
    if shift:
        un = tuple((i, -e) for i, e in shift)
        out = {_plain_mono_mul(m, un): c for m, c in out.items()}
    return mk_poly("R", out)


def _plain_mono_mul(m1, m2):
    d = dict(m1)
    for i, e in m2:
        n = d.get(i, 0) + e
        if n == 0:
            d.pop(i)
        else:
            d[i] = n
    return tuple(sorted(d.items()))


def power(a, n):
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return power(inv(a), -n)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


defined_hook = []  # callback: condition under which an operation just performed is defined


def _defined(cond):
    for h in defined_hook:
        h(cond())


def clear_denominators(d):
    """(denominators, numerator) of a sum over inv-atoms; ([], d) if there are none"""
    dens = []
    for _ in range(20):
        invs = sorted({i for m in d.terms for i, e in m if _atom_list[i].kind == "inv"})
        if not invs:
            break
        i = invs[-1]
        p = _atom_list[i].data[0]
        if p.sort != "R" and not p.terms:
            break
        top = max(dict(m).get(i, 0) for m in d.terms)
        low = min(dict(m).get(i, 0) for m in d.terms)
        if low < 0:
            break
        groups = {}
        for m, c in d.terms.items():
            e = dict(m).get(i, 0)
            groups.setdefault(top - e, {})[tuple(x for x in m if x[0] != i)] = c
        acc = const(0, "R")
        for k, g in groups.items():
            t = mk_poly("R", g)
            for _k in range(k):
                t = mul(t, p)
            acc = add(acc, t)
        dens.append(p)
        d = acc
    return dens, d


def has_inf(p):
    return any(i == INF_ID or (_atom_list[i].kind == "ite" and (has_inf(_atom_list[i].data[1]) or
                                                                has_inf(_atom_list[i].data[2])))
               for m in p.terms for i, e in m)


def inv(a):
    a = to_real(a)
    if INF_USED[0] and has_inf(a):
        # 1/inf = 0
        if a in (INF, neg(INF)):
            return const(0, "R")
        (m, c), = list(a.terms.items())[:1]
        if len(a.terms) == 1 and len(m) == 1 and m[0][1] == 1 and _atom_list[m[0][0]].kind == "ite":
            at = _atom_list[m[0][0]]
            return ite(at.data[0], inv(scale(at.data[1], c, "R")), inv(scale(at.data[2], c, "R")))
    if not a.terms:
        raise ZeroDivisionError("symbolic division by constant zero")
    if len(a.terms) == 1:
        (m, c), = a.terms.items()
        for i, e in m:
            if e > 0 and _atom_list[i].kind != "inv":
                _defined(lambda: bnot(eq0(from_atom(_atom_list[i]))))
        d = []
        for i, e in m:
            at = _atom_list[i]
            if at.kind == "inv":
                # 1/inv(p) = p : expand
                return mul(power(at.data[0], e),
                           inv(mk_poly("R", {tuple(x for x in m if x[0] != i): c})))
            d.append((i, -e))
        return mk_poly("R", {tuple(d): 1 / c})
    # factor out monomial content and leading coefficient
    com = None
    for m in a.terms:
        md = dict(m)
        if com is None:
            com = dict(md)
        else:
            for i in list(com):
                e = md.get(i, 0)
                com[i] = min(com[i], e)
            for i, e in md.items():
                if i not in com and e < 0:
                    com[i] = e
    com = {i: e for i, e in com.items() if e != 0}
    # negative exps anywhere must be included with min
    for m in a.terms:
        md = dict(m)
        for i in list(com):
            if md.get(i, 0) < com[i]:
                com[i] = md.get(i, 0)
    com = {i: e for i, e in com.items() if e != 0}
    lead = _lead(a.terms)
    lc = a.terms[lead]
    unm = tuple(sorted((i, -e) for i, e in com.items()))
    for i, e in com.items():
        if e > 0 and _atom_list[i].kind != "inv":
            _defined(lambda: bnot(eq0(from_atom(_atom_list[i]))))
    prim = mk_poly("R", {_plain_mono_mul(m, unm): c / lc for m, c in a.terms.items()})
    _defined(lambda: bnot(eq0(prim)))
    at = mk_atom("inv", "R", (prim,))
    out = from_atom(at)
    r = mk_poly("R", {_plain_mono_mul(unm, ((at.id, 1),)): 1 / lc})
    # atoms of kind inv inside unm with negative power -> leave (rare)
    return r


def div(a, b):
    if is_const(b):
        v = const_val(b)
        if v == 0:
            raise ZeroDivisionError("symbolic division by constant zero")
        return scale(to_real(a), 1 / v, "R")
    return mul(to_real(a), inv(b))


# ---------------------------------------------------------------- booleans
_bools = {}


class BTerm:
    __slots__ = ("kind", "data", "_h")

    def __hash__(self):
        return self._h

    def __repr__(self):
        return bool_str(self)


def mk_bool(kind, data):
    key = (kind, data)
    b = _bools.get(key)
    if b is None:
        b = BTerm()
        b.kind, b.data = kind, data
        b._h = hash(key)
        _bools[key] = b
    return b


TRUE = mk_bool("const", True)
FALSE = mk_bool("const", False)


def _norm_cmp(p):
    """positive scaling to primitive integer coefficients."""
    if not p.terms:
        return p
    den = 1
    for c in p.terms.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.terms.values():
        g = math.gcd(g, abs(int(c * den)))
    return scale(p, Fr(den, g) if g else Fr(1), p.sort)


def le0(p):
    if is_const(p):
        return TRUE if const_val(p) <= 0 else FALSE
    if p.sort == "I":
        # tighten: sum + c <= 0, coefficients gcd g
        c0 = const_val(p)
        g = 0
        for m, c in p.terms.items():
            if m != ():
                g = math.gcd(g, abs(int(c)))
        if g > 1:
            nc = -((-c0) / g).__floor__() if False else math.ceil(c0 / g)
            d = {m: c / g for m, c in p.terms.items() if m != ()}
            if nc:
                d[()] = Fr(nc)
            p = mk_poly("I", d)
    else:
        p = _norm_cmp(p)
    return mk_bool("le", p)


def lt0(p):
    if is_const(p):
        return TRUE if const_val(p) < 0 else FALSE
    if p.sort == "I":
        return le0(add(p, const(1)))
    return mk_bool("lt", _norm_cmp(p))


def eq0(p):
    if is_const(p):
        return TRUE if const_val(p) == 0 else FALSE
    if p.sort == "I":
        c0 = const_val(p)
        g = 0
        for m, c in p.terms.items():
            if m != ():
                g = math.gcd(g, abs(int(c)))
        if g > 1:
            if (c0 / g).denominator != 1:
                return FALSE
            p = mk_poly("I", {m: c / g for m, c in p.terms.items()})
    else:
        p = _norm_cmp(p)
    if p.terms[_lead(p.terms)] < 0:
        p = neg(p)
    return mk_bool("eq", p)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    return eq0(sub(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    k = b.kind
    if k == "not":
        return b.data
    if k == "le":
        return lt0(neg(b.data))
    if k == "lt":
        return le0(neg(b.data))
    if k == "and":
        return bor(*[bnot(x) for x in b.data])
    if k == "or":
        return band(*[bnot(x) for x in b.data])
    return mk_bool("not", b)


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.data if x.kind == "and" else (x,)
        for y in ys:
            if y is TRUE:
                continue
            if y is FALSE:
                return FALSE
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if bnot_quick(y) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b._h)
    return mk_bool("and", tuple(out))


def bnot_quick(b):
    if b.kind in ("le", "lt", "eq", "not", "bvar"):
        return bnot(b)
    return None


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.data if x.kind == "or" else (x,)
        for y in ys:
            if y is FALSE:
                continue
            if y is TRUE:
                return TRUE
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if bnot_quick(y) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b._h)
    return mk_bool("or", tuple(out))


def implies(a, b):
    return bor(bnot(a), b)


def bvar(name):
    return mk_bool("bvar", name)


# ---------------------------------------------------------------- compound
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    s = join(a, b)
    if s == "R":
        a, b = to_real(a), to_real(b)
    if a is b:
        return a
    if c.kind == "not":
        c, a, b = c.data, b, a
    elif c.kind == "or":
        c, a, b = band(*[bnot(x) for x in c.data]), b, a
    a, b = _under(c, a, 1), _under(c, b, 2)
    if a is b:
        return a
    return from_atom(mk_atom("ite", s, (c, a, b)))


def _under(c, p, k):
    """p read where c holds (k=1) / fails (k=2): top-level ites on c are resolved"""
    hit = None
    for m in p.terms:
        for i, e in m:
            at = _atom_list[i]
            if at.kind == "ite" and at.data[0] is c:
                hit = hit or {}
                hit[i] = at.data[k]
    if hit is None:
        return p
    out = const(0, p.sort)
    for m, co in p.terms.items():
        t = const(co, p.sort)
        for i, e in m:
            f = hit.get(i)
            if f is None:
                f = from_atom(_atom_list[i])
            for _ in range(abs(e)):
                t = mul(t, f if e > 0 else inv(f))
        out = add(out, t)
    return _under(c, out, k)


def app(fname, args, sort="R"):
    return from_atom(mk_atom("app", sort, (fname,) + tuple(args)))


INF = app("inf", ())
INF_ID = next(iter(INF.terms))[0][0]
INF_USED = [False]


def pmax(a, b):
    return ite(le(a, b), b, a)


def pmin(a, b):
    return ite(le(a, b), a, b)


def pabs(a):
    if is_const(a):
        return const(abs(const_val(a)), a.sort)
    # canonical sign
    if a.terms[_lead(a.terms)] < 0:
        a = neg(a)
    return ite(le0(neg(a)), a, neg(a))


def idiv(a, b):
    """floor division of integers."""
    if is_const(b):
        v = const_val(b)
        if v == 0:
            raise ZeroDivisionError
        if is_const(a):
            return const((const_val(a) / v).__floor__(), "I")
        if v < 0:
            return idiv(neg(a), neg(b))
        if v == 1:
            return a
        # pull out multiples
        whole, rest = {}, {}
        for m, c in a.terms.items():
            q = (c / v).__floor__()
            if m == ():
                r = c - q * v
                if q:
                    whole[m] = Fr(q)
                if r:
                    rest[m] = r
            elif (c / v).denominator == 1:
                whole[m] = c / v
            else:
                rest[m] = c
        w = mk_poly("I", whole)
        r = mk_poly("I", rest)
        if is_const(r):
            return add(w, const((const_val(r) / v).__floor__(), "I"))
        return add(w, from_atom(mk_atom("idiv", "I", (r, b))))
    return from_atom(mk_atom("idiv", "I", (a, b)))


def imod(a, b):
    if is_const(b):
        return sub(a, mul(b, idiv(a, b)))
    return from_atom(mk_atom("imod", "I", (a, b)))


# preconditions on the contents of arrays: name -> facts of one element,
# instantiated at every element a query mentions
APP_FACTS = {}
# names of arrays whose elements lie in [0, 1)
FRACTIONS = set()


def floor(a):
    if a.sort == "I":
        return a
    if is_const(a):
        return const(const_val(a).__floor__(), "I")
    # pull out integer part
    whole, rest = {}, {}
    for m, c in a.terms.items():
        if m == ():
            w = c.__floor__()
            if w:
                whole[m] = Fr(w)
            if c != w:
                rest[m] = c - w
        elif c.denominator == 1 and all(_atom_list[i].sort == "I" and e > 0 for i, e in m):
            whole[m] = c
        else:
            rest[m] = c
    r = mk_poly("R", rest)
    w = mk_poly("I", whole)
    if is_const(r):
        return add(w, const(const_val(r).__floor__(), "I"))
    if len(rest) == 1:
        (m, k), = rest.items()
        if 0 <= k <= 1 and len(m) == 1 and m[0][1] == 1:
            at = _atom_list[m[0][0]]
            if at.kind == "app" and at.data[0] in FRACTIONS:
                return w
    return add(w, from_atom(mk_atom("floor", "I", (r,))))


PI = None


def pi():
    global PI
    if PI is None:
        PI = var("PI", "R")
    return PI


def _split_pi(x):
    """x = r + c*pi with c rational constant."""
    x = to_real(x)
    pid = ((_pi_id(), 1),)
    c = x.terms.get(pid, Fr(0))
    d = dict(x.terms)
    d.pop(pid, None)
    return mk_poly("R", d), c


def _pi_id():
    (m,), = [tuple(pi().terms)]
    return m[0][0]


_SIN_TABLE = {Fr(0): 0, Fr(1, 6): Fr(1, 2)}


def sin(x):
    r, c = _split_pi(x)
    return _trig(r, c)


def cos(x):
    r, c = _split_pi(x)
    return _trig(r, c + Fr(1, 2))


def _trig(r, c):
    """sin(r + c*pi) canonical."""
    c = c % 2
    k = (c * 2).__floor__()
    c = c - Fr(k, 2)  # [0,1/2)
    sgn = 1 if k < 2 else -1
    is_cos = bool(k % 2)
    # value = sgn * (cos|sin)(r + c pi)
    if not r.terms:
        if c == 0:
            return const(sgn if is_cos else 0, "R")
        if c == Fr(1, 6) and not is_cos:
            return const(Fr(sgn, 2), "R")
        if c == Fr(1, 3) and is_cos:
            return const(Fr(sgn, 2), "R")
    if c == 0 and r.terms[_lead(r.terms)] < 0:
        r = neg(r)
        if not is_cos:
            sgn = -sgn
    elif c != 0 and r.terms and r.terms[_lead(r.terms)] < 0:
        # sin(-(q) + c pi) = cos(q + (1/2 - c) pi) ; cos(-(q)+c pi) = sin(q+(1/2-c)pi)
        r = neg(r)
        is_cos = not is_cos
        c = Fr(1, 2) - c
    arg = add(r, scale(pi(), c, "R"))
    return scale(app("cos" if is_cos else "sin", (arg,)), sgn, "R")


def _isqrt_fr(v):
    n, d = v.numerator, v.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fr(a, b)
    return None


def sqrt(x):
    x = to_real(x)
    if is_const(x):
        v = const_val(x)
        if v >= 0:
            r = _isqrt_fr(v)
            if r is not None:
                return const(r, "R")
    _defined(lambda: le(const(0, "R"), x))
    return from_atom(mk_atom("sqrt", "R", (x,)))


def log(x):
    x = to_real(x)
    if is_const(x) and const_val(x) == 1:
        return const(0, "R")
    _defined(lambda: lt(const(0, "R"), x))
    if len(x.terms) == 1:
        (m, k), = x.terms.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            a = _atom_list[m[0][0]]
            if a.kind == "sqrt":
                return scale(app("log", (a.data[0],)), Fr(1, 2))
    return app("log", (x,))


# formal sum over i in [0,n): body is a Poly mentioning bound variable var
_bound = [0]


def bound_var(level):
    return var("$b%d" % level, "I")


def fsum(n, body, level):
    """Sum_{$b<level>=0}^{n-1} body ; linear factors pulled out."""
    b = bound_var(level)
    bid = list(b.terms)[0][0][0]
    if is_const(n) and const_val(n) <= 0:
        return const(0, "R")
    out = const(0, "R")
    inner = {}
    for m, c in body.terms.items():
        dep, ind = [], []
        for i, e in m:
            (dep if depends(_atom_list[i], bid) else ind).append((i, e))
        inner.setdefault(tuple(ind), {})[tuple(dep)] = c
    for ind, d in inner.items():
        # normalise each summand separately, so that sums are linear
        for dep, c in d.items():
            coef = mk_poly("R", {ind: c})
            if dep == ():
                out = add(out, mul(coef, to_real(pmax(n, const(0)))))
            else:
                s = from_atom(mk_atom("sum", "R", (n, b, mk_poly("R", {dep: Fr(1)}))))
                out = add(out, mul(coef, s))
    return out


def atom_vars(a):
    """set of var-atom ids occurring free in atom a (memoised)."""
    if a.free is None:
        k = a.kind
        if k == "var":
            a.free = frozenset([a.id])
        else:
            s = set()
            for x in a.data:
                if isinstance(x, Poly):
                    s |= poly_vars(x)
                elif isinstance(x, BTerm):
                    s |= bool_vars(x)
            if k == "sum":
                s -= poly_vars(a.data[1])
            a.free = frozenset(s)
    return a.free


def poly_vars(p):
    s = set()
    for m in p.terms:
        for i, _ in m:
            s |= atom_vars(_atom_list[i])
    return s


def bool_vars(b):
    if b.kind in ("le", "lt", "eq"):
        return poly_vars(b.data)
    if b.kind in ("and", "or"):
        s = set()
        for x in b.data:
            s |= bool_vars(x)
        return s
    if b.kind == "not":
        return bool_vars(b.data)
    return set()


def depends(a, vid):
    return vid in atom_vars(a)


def atoms_of_poly(p, acc):
    """all atoms (transitively)."""
    for m in p.terms:
        for i, _ in m:
            atoms_of_atom(_atom_list[i], acc)
    return acc


def atoms_of_atom(a, acc):
    if a in acc:
        return
    acc.add(a)
    for x in (a.data if a.kind != "var" else ()):
        if isinstance(x, Poly):
            atoms_of_poly(x, acc)
        elif isinstance(x, BTerm):
            atoms_of_bool(x, acc)


def atoms_of_bool(b, acc):
    if b.kind in ("le", "lt", "eq"):
        atoms_of_poly(b.data, acc)
    elif b.kind in ("and", "or"):
        for x in b.data:
            atoms_of_bool(x, acc)
    elif b.kind == "not":
        atoms_of_bool(b.data, acc)
    return acc


# ------------------------------------------------------------ substitution
def subst_poly(p, env, memo=None):
    """env: atom id -> Poly ; rebuilds bottom-up. Also 'apps': handled by rewrite_poly."""
    if memo is None:
        memo = {}
    return rewrite_poly(p, lambda a: env.get(a.id), memo)


def rewrite_poly(p, f, memo):
    k = ("p", p)
    r = memo.get(k)
    if r is not None:
        return r
    out = const(0, p.sort)
    for m, c in p.terms.items():
        t = const(c, p.sort) if p.sort == "R" or c.denominator == 1 else const(c, "R")
        for i, e in m:
            q = rewrite_atom(_atom_list[i], f, memo)
            t = mul(t, power(q, e))
        out = add(out, t)
    memo[k] = out
    return out


def rewrite_atom(a, f, memo):
    k = ("a", a)
    r = memo.get(k)
    if r is not None:
        return r
    r = f(a)
    if r is None:
        kd = a.kind
        if kd == "var":
            r = from_atom(a)
        else:
            args = []
            for x in a.data:
                if isinstance(x, Poly):
                    args.append(rewrite_poly(x, f, memo))
                elif isinstance(x, BTerm):
                    args.append(rewrite_bool(x, f, memo))
                else:
                    args.append(x)
            r = rebuild(a, args)
    memo[k] = r
    return r


def rebuild(a, args):
    k = a.kind
    if k == "app":
        fn = args[0]
        if fn == "sin":
            return sin(args[1])
        if fn == "cos":
            return cos(args[1])
        if fn == "log":
            return log(args[1])
        return app(fn, args[1:], a.sort)
    if k == "ite":
        return ite(*args)
    if k == "inv":
        return inv(args[0])
    if k == "idiv":
        return idiv(*args)
    if k == "imod":
        return imod(*args)
    if k == "floor":
        return floor(args[0])
    if k == "sqrt":
        return sqrt(args[0])
    if k == "sum":
        lv = int(_atom_list[next(iter(args[1].terms))[0][0]].data[2:])
        return fsum(args[0], args[2], lv)
    raise NotImplementedError(k)


def rewrite_bool(b, f, memo):
    k = ("b", b)
    r = memo.get(k)
    if r is not None:
        return r
    kd = b.kind
    if kd == "le":
        r = le0(rewrite_poly(b.data, f, memo))
    elif kd == "lt":
        r = lt0(rewrite_poly(b.data, f, memo))
    elif kd == "eq":
        r = eq0(rewrite_poly(b.data, f, memo))
    elif kd == "and":
        r = band(*[rewrite_bool(x, f, memo) for x in b.data])
    elif kd == "or":
        r = bor(*[rewrite_bool(x, f, memo) for x in b.data])
    elif kd == "not":
        r = bnot(rewrite_bool(b.data, f, memo))
    else:
        r = b
    memo[k] = r
    return r


# ---------------------------------------------------------------- printing
def atom_str(a):
    k = a.kind
    if k == "var":
        return a.data
    if k == "app":
        return "%s(%s)" % (a.data[0], ", ".join(map(str, a.data[1:])))
    if k == "ite":
        return "(%s ? %s : %s)" % a.data
    if k == "inv":
        return "1/(%s)" % a.data
    return "%s(%s)" % (k, ", ".join(map(str, a.data)))


def poly_str(p):
    if not p.terms:
        return "0"
    parts = []
    for m, c in p.terms.items():
        fs = [] if c == 1 and m else [str(c)]
        for i, e in m:
            s = atom_str(_atom_list[i])
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        parts.append("*".join(fs))
    return " + ".join(parts)


def bool_str(b):
    k = b.kind
    if k == "const":
        return str(b.data)
    if k == "le":
        return "(%s <= 0)" % b.data
    if k == "lt":
        return "(%s < 0)" % b.data
    if k == "eq":
        return "(%s == 0)" % b.data
    if k in ("and", "or"):
        return "(" + (" & " if k == "and" else " | ").join(map(str, b.data)) + ")"
    if k == "not":
        return "!%s" % b.data
    return b.data


# --------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def eval_poly(p, env):
    """env: object with .var(name,sort) and .app(fname,args); floats/ints."""
    tot = 0
    for m, c in p.terms.items():
        t = int(c) if c.denominator == 1 else c.numerator / c.denominator
        for i, e in m:
            v = eval_atom(_atom_list[i], env)
            t = t * (v ** e if e > 0 else 1.0 / (v ** -e))
        tot = tot + t
    return tot


def eval_atom(a, env):
    k = a.kind
    if k == "var":
        if a.data == "PI":
            return math.pi
        return env.var(a.data, a.sort)
    if k == "app":
        args = [eval_poly(x, env) for x in a.data[1:]]
        fn = a.data[0]
        if fn in ("sin", "cos", "log", "exp"):
            return getattr(math, fn)(args[0])
        return env.app(fn, args)
    if k == "ite":
        return eval_poly(a.data[1] if eval_bool(a.data[0], env) else a.data[2], env)
    if k == "inv":
        return 1.0 / eval_poly(a.data[0], env)
    if k == "idiv":
        return eval_poly(a.data[0], env) // eval_poly(a.data[1], env)
    if k == "imod":
        return eval_poly(a.data[0], env) % eval_poly(a.data[1], env)
    if k == "floor":
        return math.floor(eval_poly(a.data[0], env))
    if k == "sqrt":
        return math.sqrt(eval_poly(a.data[0], env))
    raise EvalError(k)


def eval_bool(b, env):
    k = b.kind
    if k == "const":
        return b.data
    if k == "le":
        return eval_poly(b.data, env) <= 0
    if k == "lt":
        return eval_poly(b.data, env) < 0
    if k == "eq":
        return eval_poly(b.data, env) == 0
    if k == "and":
        return all(eval_bool(x, env) for x in b.data)
    if k == "or":
        return any(eval_bool(x, env) for x in b.data)
    if k == "not":
        return not eval_bool(b.data, env)
    return env.var(b.data, "B")
