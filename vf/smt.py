"""SMT-LIB2 emission and solver processes (z3, z3-new, cvc5)."""
import os
import select
import subprocess
import time
from fractions import Fraction as Fr

from . import term as T

STATS = {"queries": 0, "time": {}, "by": {}}


def _num(c, sort):
    if sort == "I":
        n = int(c)
        return str(n) if n >= 0 else "(- %d)" % -n
    n, d = c.numerator, c.denominator
    s = "%d.0" % abs(n) if d == 1 else "(/ %d.0 %d.0)" % (abs(n), d)
    return s if n >= 0 else "(- %s)" % s


class Emitter:
    """Emits declarations/definitions for terms.  mode 'lin' abstracts every
    nonlinear monomial by uninterpreted functions (sound for proving)."""

    def __init__(self, mode):
        self.mode = mode
        self.out = []
        self.names = {}
        self.decl = set()
        self.abstracted = False
        self.uninterp = set()

    def declare(self, name, args, res):
        if name not in self.decl:
            self.decl.add(name)
            self.out.append("(declare-fun %s (%s) %s)" % (name, " ".join(args), res))

    def sort(self, s):
        return "Int" if s == "I" else "Real"

    def atom(self, a):
        r = self.names.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "var":
            n = "|%s|" % a.data
            self.declare(n, [], self.sort(a.sort))
            if a.data == "PI":
                self.out.append("(assert (and (< 3.14159265 %s) (< %s 3.14159266)))" % (n, n))
            self.names[a] = n
            return n
        if k == "app":
            args = a.data[1:]
            n = "|%s|" % ("u" + a.data[0] if a.data[0] in ("sin", "cos", "log") else a.data[0])
            self.declare(n, [self.sort(x.sort) for x in args], self.sort(a.sort))
            e = "(%s %s)" % (n, " ".join(self.poly(x) for x in args))
            if a.data[0] in ("sin", "cos", "log"):
                self.uninterp.add(a.data[0])
        elif k == "ite":
            c, x, y = a.data
            e = "(ite %s %s %s)" % (self.bool(c), self.poly(x), self.poly(y))
        elif k == "inv":
            if self.mode == "lin":
                self.abstracted = True
                self.declare("uinv", ["Real"], "Real")
                e = "(uinv %s)" % self.poly(a.data[0])
            else:
                e = "(/ 1.0 %s)" % self.poly(a.data[0])
        elif k == "idiv":
            e = "(div %s %s)" % (self.poly(a.data[0]), self.poly(a.data[1]))
        elif k == "imod":
            e = "(mod %s %s)" % (self.poly(a.data[0]), self.poly(a.data[1]))
        elif k == "floor":
            e = "(to_int %s)" % self.poly(a.data[0])
        elif k == "sqrt":
            self.uninterp.add("sqrt")
            self.declare("usqrt", ["Real"], "Real")
            p = self.poly(a.data[0])
            e = "(usqrt %s)" % p
            nm = "t%d" % len(self.names)
            self.names[a] = nm
            self.out.append("(define-fun %s () Real %s)" % (nm, e))
            self.out.append("(assert (>= %s 0.0))" % nm)
            if self.mode == "nl":
                self.out.append("(assert (=> (>= %s 0.0) (= (* %s %s) %s)))" % (p, nm, nm, p))
            return nm
        elif k == "sum":
            # uninterpreted function of its free variables' structure
            self.abstracted = True
            nm = "sum%d" % a.id
            self.declare(nm, [], "Real")
            self.names[a] = nm
            return nm
        elif k == "opq":
            self.abstracted = True
            nm = "opq%d" % a.id
            self.declare(nm, [], self.sort(a.sort))
            self.names[a] = nm
            return nm
        else:
            raise NotImplementedError(k)
        nm = "t%d" % len(self.names)
        self.names[a] = nm
        self.out.append("(define-fun %s () %s %s)" % (nm, self.sort(a.sort), e))
        if k == "app" and a.data[0] in ("sin", "cos"):
            self.out.append("(assert (and (<= (- 1.0) %s) (<= %s 1.0)))" % (nm, nm))
        if k == "app" and a.data[0] in T.APP_FACTS:
            for f in T.APP_FACTS[a.data[0]](a, args):
                self.out.append("(assert %s)" % self.bool(f))
        return nm

    def mono(self, m, sort):
        fs = []
        for i, e in m:
            a = T._atom_list[i]
            s = self.atom(a)
            if sort == "R" and a.sort == "I":
                s = "(to_real %s)" % s
            if e < 0:
                if self.mode == "lin":
                    self.abstracted = True
                    self.declare("uinv", ["Real"], "Real")
                    s = "(uinv %s)" % s
                else:
                    s = "(/ 1.0 %s)" % s
            fs.extend([s] * abs(e))
        if len(fs) == 1:
            return fs[0]
        if self.mode == "lin":
            self.abstracted = True
            so = self.sort(sort)
            f = "umul" + sort
            self.declare(f, [so, so], so)
            r = fs[0]
            for x in fs[1:]:
                r = "(%s %s %s)" % (f, r, x)
            return r
        return "(* %s)" % " ".join(fs)

    def poly(self, p):
        r = self.names.get(p)
        if r is not None:
            return r
        s = p.sort
        if not p.terms:
            return "0" if s == "I" else "0.0"
        parts = []
        for m, c in p.terms.items():
            if m == ():
                parts.append(_num(c, s))
            else:
                t = self.mono(m, s)
                parts.append(t if c == 1 else "(* %s %s)" % (_num(c, s), t))
        e = parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
        if len(e) > 60:
            nm = "p%d" % len(self.names)
            self.out.append("(define-fun %s () %s %s)" % (nm, self.sort(s), e))
            e = nm
        self.names[p] = e
        return e

    def bool(self, b):
        r = self.names.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "const":
            return "true" if b.data else "false"
        if k in ("le", "lt", "eq"):
            op = {"le": "<=", "lt": "<", "eq": "="}[k]
            p = b.data
            # split constant to the right, keeps text readable
            z = "0" if p.sort == "I" else "0.0"
            e = "(%s %s %s)" % (op, self.poly(p), z)
        elif k in ("and", "or"):
            e = "(%s %s)" % (k, " ".join(self.bool(x) for x in b.data))
        elif k == "not":
            e = "(not %s)" % self.bool(b.data)
        elif k == "bvar":
            n = "|%s|" % b.data
            self.declare(n, [], "Bool")
            e = n
        elif k == "raw":
            e = b.data
        if len(e) > 60:
            nm = "b%d" % len(self.names)
            self.out.append("(define-fun %s () Bool %s)" % (nm, e))
            e = nm
        self.names[b] = e
        return e


def script(assumps, goal, mode, extra=(), values=None):
    em = Emitter(mode)
    asserts = []
    for a in assumps:
        asserts.append("(assert %s)" % em.bool(a))
    for a in extra:
        asserts.append("(assert %s)" % em.bool(a))
    asserts.append("(assert (not %s))" % em.bool(goal))
    vals = ""
    if values is not None:
        exprs = []
        for v in values:
            if isinstance(v, T.BTerm):
                exprs.append(em.bool(v))
            else:
                exprs.append(em.poly(v))
        vals = exprs
    txt = "(set-logic ALL)\n" + "\n".join(em.out) + "\n" + "\n".join(asserts) + "\n(check-sat)\n"
    return txt, em, vals


SOLVERS = {
    "z3": ["z3", "-in", "-smt2"],
    "z3-new": ["z3-new", "-in", "-smt2"],
    "cvc5": ["cvc5", "--lang=smt2", "--produce-models"],
}


def run_solver(name, txt, timeout):
    t0 = time.time()
    cmd = list(SOLVERS[name])
    if name == "cvc5":
        cmd += ["--tlimit=%d" % int(timeout * 1000)]
    else:
        cmd += ["-T:%d" % max(1, int(timeout + 0.999))]
    try:
        p = subprocess.run(cmd, input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout + 5)
        out = p.stdout.decode()
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t0
    STATS["time"][name] = STATS["time"].get(name, 0) + dt
    STATS["queries"] += 1
    first = ""
    for ln in out.splitlines():
        ln = ln.strip()
        if ln in ("sat", "unsat", "unknown", "timeout"):
            first = ln
            break
        if ln.startswith("(error"):
            first = "error " + ln
            break
    return first or "unknown", out, dt


class Z3Proc:
    """Persistent z3 process; every query is wrapped in (push)(pop)."""

    def __init__(self, exe="z3"):
        self.exe = exe
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe, "-in", "-smt2"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def query(self, body, timeout):
        """body: declarations+asserts (no set-logic); returns output lines."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        t0 = time.time()
        txt = "(push)\n(set-option :timeout %d)\n%s\n(pop)\n(echo \"@@done\")\n" % (int(timeout * 1000), body)
        try:
            self.p.stdin.write(txt.encode())
            self.p.stdin.flush()
        except Exception:
            self.stop()
            return "unknown", ""
        fd = self.p.stdout.fileno()
        out = self.buf
        end = time.time() + timeout + 3
        while b"@@done" not in out:
            r, _, _ = select.select([fd], [], [], max(0.0, end - time.time()))
            if not r:
                self.stop()
                dt = time.time() - t0
                STATS["time"][self.exe] = STATS["time"].get(self.exe, 0) + dt
                STATS["queries"] += 1
                return "unknown", "timeout"
            c = os.read(fd, 1 << 16)
            if not c:
                self.stop()
                return "unknown", out.decode()
            out += c
        self.buf = b""
        dt = time.time() - t0
        STATS["time"][self.exe] = STATS["time"].get(self.exe, 0) + dt
        STATS["queries"] += 1
        s = out.decode().replace("@@done", "")
        for ln in s.splitlines():
            ln = ln.strip()
            if ln in ("sat", "unsat", "unknown"):
                return ln, s
            if ln.startswith("(error"):
                return "error", s
        return "unknown", s


_z3 = Z3Proc("z3")
_cache = {}


def quick_check(assumps, goal, timeout=2.0, mode="lin"):
    """fast check on the persistent z3; 'unsat' means assumps |= goal."""
    key = (tuple(assumps), goal, mode)
    r = _cache.get(key)
    if r is not None:
        return r
    txt, em, _ = script(assumps, goal, mode)
    body = txt.replace("(set-logic ALL)\n", "")
    r, _ = _z3.query(body, timeout)
    _cache[key] = r
    return r


def prove(assumps, goal, timeout=8.0, extra=(), nl=True):
    """returns dict(status=proved|sat|unknown, backend, time, exact)"""
    t0 = time.time()
    if goal is T.TRUE:
        return dict(status="proved", backend="ring-normaliser", time=0.0, exact=True)
    tried = []
    # 1. linear abstraction on persistent z3
    txt, em, _ = script(assumps, goal, "lin", extra)
    r, o = _z3.query(txt.replace("(set-logic ALL)\n", ""), min(4.0, timeout))
    tried.append(("z3/lin", r))
    if r == "unsat":
        return dict(status="proved", backend="z3", time=time.time() - t0, exact=True, tried=tried)
    exact_lin = not em.abstracted and not em.uninterp
    if r == "sat" and exact_lin:
        return dict(status="sat", backend="z3", time=time.time() - t0, exact=True, tried=tried)
    sat_any = None
    if nl:
        txt2, em2, _ = script(assumps, goal, "nl", extra)
        exact = not em2.abstracted and not em2.uninterp
        for s in ("z3-new", "z3", "cvc5"):
            r2, o2, dt = run_solver(s, txt2, timeout)
            tried.append((s + "/nl", r2))
            if r2 == "unsat":
                return dict(status="proved", backend=s, time=time.time() - t0, exact=True, tried=tried)
            if r2 == "sat":
                sat_any = (s, exact)
                break
    if sat_any:
        return dict(status="sat", backend=sat_any[0], time=time.time() - t0, exact=sat_any[1], tried=tried)
    if r == "sat":
        return dict(status="unknown", backend="", time=time.time() - t0, exact=False, tried=tried)
    return dict(status="unknown", backend="", time=time.time() - t0, exact=False, tried=tried)


def _parse_val(s):
    s = s.strip()
    toks = s.replace("(", " ( ").replace(")", " ) ").split()

    def rd(i):
        if toks[i] == "(":
            op = toks[i + 1]
            vals = []
            j = i + 2
            while toks[j] != ")":
                v, j = rd(j)
                vals.append(v)
            if op == "-":
                return (-vals[0] if len(vals) == 1 else vals[0] - vals[1]), j + 1
            if op == "/":
                return Fr(vals[0]) / Fr(vals[1]), j + 1
            raise ValueError(s)
        t = toks[i]
        if t in ("true", "false"):
            return t == "true", i + 1
        if t.endswith("?"):
            t = t[:-1]
        return Fr(t), i + 1

    return rd(0)[0]


def get_model(assumps, goal, values, extra=(), timeout=8.0):
    """values: list of Poly; returns list of Fractions or None."""
    for mode in ("nl", "lin"):
        txt, em, exprs = script(assumps, goal, mode, extra, values)
        txt += "".join('(echo "@v")\n(eval %s)\n' % e for e in exprs)
        for s in ("z3-new", "z3"):
            r, out, dt = run_solver(s, txt, timeout)
            if r == "sat":
                parts = out.split("@v")[1:]
                vals = []
                for p in parts:
                    try:
                        vals.append(_parse_val(p.strip().splitlines()[0] if p.strip() else "0"))
                    except Exception:
                        try:
                            vals.append(_parse_val(" ".join(p.split())))
                        except Exception:
                            vals.append(None)
                return vals
    return None
