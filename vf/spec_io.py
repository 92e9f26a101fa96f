"""Contracts of sopht.utils.IO against the assumed contract of h5py."""
import os
import posixpath
import re
import tempfile
import xml.etree.ElementTree as ET

from . import io_scen as W
from . import special as X
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import SArr, asarr, uf_content, I8
from .stubs_io import H5, Node, Dataset, store, norm, tokens, number
from .sym import Unsupported

CONC = "vf.concrete_io"
FILE = "sopht/utils/IO.py"
AX = {2: ("ny", "nx"), 3: ("nz", "ny", "nx")}


class scratch:
    """the code under test runs in an empty directory; what it creates there past
    the assumed contracts is noticed"""

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="vf_io_")
        os.chdir(self.d)
        return self

    def __exit__(self, t, v, tb):
        os.chdir(self.old)
        left = os.listdir(self.d)
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)
        if left and t is None:
            raise Unsupported("files written without open()/h5py: %s" % left[:3])
        return False


def io_class():
    import sopht.utils.IO as m
    return m.IO


class Side:
    """one registered IO object and its arrays"""

    def __init__(self, c, sc, dim, real, tag, like=None, sizes=None, geom=None, counts=None, skip=(), io_real=None):
        self.c, self.sc, self.dim = c, sc, dim
        if like is not None:
            sizes, geom, counts = sizes or like.sizes, geom or like.geom, counts or like.counts
        self.sizes = sizes if sizes is not None else [positive(c, n + tag) for n in AX[dim]]
        self.geom = geom if geom is not None else geometry(dim, self.sizes, tag)
        if like is not None and self.geom is like.geom:
            # other array objects, equal geometry
            self.geom = {k: asarr(v).copy() for k, v in like.geom.items()}
        self.counts = dict(counts or {})
        for k in W.grid_keys(sc):
            if k not in self.counts:
                self.counts[k] = positive(c, "N_%s%s" % (k, tag))
        self.kinds = W.keys(sc)
        self.arrays = {k: X.field("%s%s" % (k, tag), W.shape_of(k, t, dim, self.sizes, self.counts), real)
                       for k, t in self.kinds.items()}
        self.io = io_class()(dim=dim, real_dtype=X.rt(io_real or real))
        W.register(self.io, sc, self.geom, self.arrays, skip)

    def snapshot(self):
        return {k: a.getter() for k, a in self.arrays.items()}

    def renew(self, tag):
        for k, a in self.arrays.items():
            a.buf.content = uf_content("%s%s" % (k, tag), a.dtype)


def positive(c, name):
    n = S.ivar(name)
    c.assume(n >= 1)
    c.assume(n <= 1000000)
    return n


def geometry(dim, sizes, tag):
    o = [S.rvar("origin%d%s" % (d, tag)) for d in range(dim)]
    h = [S.rvar("dx%d%s" % (d, tag)) for d in range(dim)]
    return dict(origin=asarr(o).copy(), dx=asarr(h).copy(), grid_size=asarr(list(sizes)).copy())


def part_of(k):
    return "eul" if k.startswith("e/") else "lag"


def same(c, side, want, part, kind, text):
    for k, a in side.arrays.items():
        if part in (None, part_of(k)):
            X.forall(c, kind, "%s: %s" % (text, k), a.shape, lambda i, a=a, k=k: T.eq(a.at(i), want[k](i)))


def tree(c, name):
    f = store().get(norm(name))
    if not isinstance(f, H5):
        return None
    return f


def time_is(c, got, want, text):
    c.oblige("post", "%s: time stamp" % text, T.eq(T.to_real(S.pt(got)), T.to_real(S.pt(want)))
             if S._isnum(got) else T.FALSE)


def roundtrip(scen, dim, real, part, name="out.h5", history=True, io_real=None, to_real=None):
    """save; load into other equally registered arrays, of precision to_real if given
    (and again, and after other saves)"""
    sc = W.SCEN[scen]

    def build(c):
        tokens(c)
        c.exact_copies = True
        with scratch():
            ok, ab = X.vacuous_total(c, lambda: (lambda a: (a, Side(c, sc, dim, to_real or real, "'", like=a, io_real=None if to_real else io_real)))(
                Side(c, sc, dim, real, "", io_real=io_real)), "registration accepted")
            if not ok:
                return
            a, b = ab
            t = S.rvar("time")
            init = a.snapshot()
            ok, _ = X.vacuous_total(c, lambda: a.io.save(h5_file_name=name, time=t), "save returns normally")
            if not ok:
                return
            same(c, a, init, part, "frame", "save leaves the registered arrays")
            scramble_connection(c, b)
            ok, got = X.vacuous_total(c, lambda: b.io.load(h5_file_name=name), "load returns normally")
            if not ok:
                return
            time_is(c, got, t, "load")
            same(c, b, init, part, "post", "restored")
            same(c, a, init, part, "frame", "load into other arrays leaves the saved ones")
            if part == "lag":
                connection(c, a, b, name)
            if not history:
                return
            # any later contents, saved under another and under the same name
            first = init
            a.renew("''")
            second = a.snapshot()
            t2, t3 = S.rvar("time2"), S.rvar("time3")
            other = posixpath.join(posixpath.dirname(name), "later_" + posixpath.basename(name))
            ok, _ = X.vacuous_total(c, lambda: a.io.save(other, t2), "second save returns normally")
            if not ok:
                return
            ok, got = X.vacuous_total(c, lambda: b.io.load(other), "second load returns normally")
            if not ok:
                return
            time_is(c, got, t2, "second file")
            same(c, b, second, part, "post", "second file restored")
            ok, got = X.vacuous_total(c, lambda: a.io.load(name), "load into the saved arrays returns normally")
            if not ok:
                return
            time_is(c, got, t, "first file")
            same(c, a, first, part, "post", "first file restored into the arrays it was saved from")
            a.renew("'''")
            third = a.snapshot()
            ok, _ = X.vacuous_total(c, lambda: a.io.save(name, t3), "overwriting save returns normally")
            if not ok:
                return
            ok, got = X.vacuous_total(c, lambda: b.io.load(name), "load after overwriting returns normally")
            if not ok:
                return
            time_is(c, got, t3, "overwritten file")
            same(c, b, third, part, "post", "overwritten file restored")
    return X.run("IO registration, save, load", build, real, "%s%s, %dD, %s, file %r, part %s" % (real, " in %s IO" % io_real if io_real else " into %s arrays" % to_real if to_real else "", dim, scen, name, part),
                 modular=False, file=FILE, replay=dict(type="special", module=CONC, func="roundtrip", scen=scen, dim=dim,
                                                       real=real, part=part, name=name, io_real=io_real, to_real=to_real))


def scramble_connection(c, side):
    d = getattr(side.io, "lagrangian_grid_connection", None)
    if isinstance(d, dict):
        for k, v in list(d.items()):
            if isinstance(v, SArr) and v.buf is not None:
                v.buf.content = uf_content("scrambled_" + k, v.dtype)


def connection(c, a, b, name):
    """connectivity in the file is 0..N-1 and ends up in the loading object"""
    f = tree(c, name)
    grids = f.root.kids["Lagrangian"].kids if "Lagrangian" in f.root.kids else {}
    con = W.connected(a.sc)
    if not con:
        return
    found = [g for g in grids.values() if "Connection" in g.kids and isinstance(g.kids["Connection"], Dataset)]
    c.oblige("post", "one connectivity per connected grid in the file", T.TRUE if len(found) == len(con) else T.FALSE)
    db, da = (getattr(s.io, "lagrangian_grid_connection", None) for s in (b, a))
    if not isinstance(db, dict) or not isinstance(da, dict):
        raise Unsupported("connectivity is not kept in a dictionary")
    for g, v in sorted(da.items()):
        w = db.get(g)
        if not isinstance(w, SArr):
            c.oblige("post", "connectivity restored", T.FALSE)
            continue
        n = grids[g].kids["Grid"]._shape[0]
        c.oblige("post", "connectivity of %s has one entry per marker" % g,
                 T.eq(w._shape[0], n) if w.ndim == 1 else T.FALSE)
        X.forall(c, "post", "connectivity of %s restored" % g, (S.Sym(n),), lambda i: T.eq(w.at(i), i[0]))


# ------------------------------------------------------------- rejection
def close(x, y):
    """equal up to the relative accuracy of a file comparison"""
    x, y = T.to_real(S.pt(x)), T.to_real(S.pt(y))
    return T.le(T.pabs(T.sub(x, y)), T.mul(T.const(S.Fr(1, 10 ** 6), "R"), T.pabs(y)))


def missing(scen, what, n, dim, real="f64"):
    """the file lacks a registered field or grid"""
    sc = W.SCEN[scen]
    less = W.dropped(sc, what, n)

    def build(c):
        tokens(c)
        with scratch():
            ok, ab = X.vacuous_total(c, lambda: (lambda a: (a, Side(c, sc, dim, real, "'", like=a)))(
                Side(c, less, dim, real, "")), "registration accepted")
            if not ok:
                return
            a, b = ab
            ok, _ = X.vacuous_total(c, lambda: a.io.save("out.h5", S.rvar("time")), "save returns normally")
            if ok:
                X.rejects(c, lambda: b.io.load("out.h5"), "file without a registered field or grid")
    return X.run("IO.load", build, real, "%dD, file of %s without %s%d" % (dim, scen, what, n), modular=False, file=FILE,
                 replay=dict(type="special", module=CONC, func="missing", scen=scen, what=what, n=n, dim=dim, real=real))


def geometry_mismatch(scen, which, dim, real="f64"):
    """returning normally means the registered origin/spacing/size is the saved one"""
    sc = W.SCEN[scen]

    def build(c):
        tokens(c)
        with scratch():
            a = Side(c, sc, dim, real, "")
            g = {k: asarr(v).copy() for k, v in a.geom.items()}
            sizes, counts = list(a.sizes), dict(a.counts)
            if which == "grid_size":
                sizes = [positive(c, n + "'") for n in AX[dim]]
                g["grid_size"] = asarr(sizes).copy()
            elif which == "markers":
                counts = {k: positive(c, "N_%s'" % k) for k in counts}
            else:
                g[which] = geometry(dim, a.sizes, "'")[which]
            b = Side(c, sc, dim, real, "'", like=a, sizes=sizes, geom=g, counts=counts)
            ok, _ = X.vacuous_total(c, lambda: a.io.save("out.h5", S.rvar("time")), "save returns normally")
            if not ok:
                return
            try:
                b.io.load("out.h5")
            except (Unsupported, S.PathInfeasible):
                raise
            except Exception as e:
                if which == "markers":
                    goal = T.band(*[T.eq(S.pt(counts[k]), S.pt(a.counts[k])) for k in counts])
                else:
                    goal = T.band(*[T.eq(g[which].at((T.const(d),)), a.geom[which].at((T.const(d),)))
                                    for d in range(dim)])
                c.oblige("total", "equal %s accepted (%s)" % (which, type(e).__name__), T.bnot(goal))
                return
            if which == "markers":
                for k in counts:
                    c.oblige("post", "accepted only with equal marker counts (%s)" % k,
                             T.eq(S.pt(counts[k]), S.pt(a.counts[k])))
            elif which == "grid_size":
                for d in range(dim):
                    c.oblige("post", "accepted only with equal grid size, axis %d" % d,
                             T.eq(S.pt(sizes[d]), S.pt(a.sizes[d])))
            else:
                for d in range(dim):
                    i = (T.const(d),)
                    c.oblige("post", "accepted only with equal %s, axis %d" % (which, d),
                             T.bor(close(g[which].at(i), a.geom[which].at(i)), close(a.geom[which].at(i), g[which].at(i))))
    return X.run("IO.load", build, real, "%dD, %s, other %s" % (dim, scen, which), modular=False, file=FILE,
                 replay=dict(type="special", module=CONC, func="geometry_mismatch", scen=scen, which=which, dim=dim,
                             real=real))


def bad_registration(dim, real="f64"):
    """fields of inconsistent shape, registration before the grid, invalid dimension"""
    def build(c):
        tokens(c)
        with scratch():
            IO = io_class()
            new = lambda: IO(dim=dim, real_dtype=X.rt(real))
            for d in (0, 1, 4, -2):
                X.rejects(c, lambda d=d: IO(dim=d, real_dtype=X.rt(real)), "dimension %d" % d)
            sizes = [positive(c, n) for n in AX[dim]]
            geom = geometry(dim, sizes, "")
            f = X.field("f", sizes, real)
            X.rejects(c, lambda: new().add_as_eulerian_fields_for_io(f=f), "Eulerian field before the grid")
            N = positive(c, "N")
            for k in range(0, 4):
                if k != 2:
                    X.rejects(c, lambda k=k: new().add_as_lagrangian_fields_for_io(
                        X.field("g%d" % k, [dim, N, N][:k], real)), "Lagrangian grid of %d axes" % k)
    return X.run("IO.__init__, IO.add_as_fields_for_io", build, real, "%dD" % dim, modular=False, file=FILE,
                 replay=dict(type="special", module=CONC, func="bad_registration", dim=dim, real=real))


def shape_registration(dim, nd, where, real="f64"):
    """accepted only with the shape of a scalar or a vector field (nd axes of any extent)"""
    def build(c):
        tokens(c)
        with scratch():
            io = io_class()(dim=dim, real_dtype=X.rt(real))
            sizes = [positive(c, n) for n in AX[dim]]
            ext = [positive(c, "e%d" % k) for k in range(nd)]
            arr = X.field("f", ext, real)
            if where == "grid":
                scalar, vector = None, [S.Sym(T.const(dim)), None]
                call = lambda: io.add_as_lagrangian_fields_for_io(arr, "g")
            elif where == "eul":
                io.define_eulerian_grid(**geometry(dim, sizes, ""))
                scalar, vector = sizes, [S.Sym(T.const(dim))] + sizes
                call = lambda: io.add_as_eulerian_fields_for_io(f=arr)
            else:
                N = positive(c, "N")
                grid = X.field("g", [dim, N], real)
                scalar, vector = [N], [S.Sym(T.const(dim)), N]
                call = lambda: io.add_as_lagrangian_fields_for_io(grid, "g", f=arr)
            goals = []
            for sh in (scalar, vector):
                if sh is not None and len(sh) == nd:
                    goals.append(T.band(*[T.eq(S.pt(x), S.pt(y)) for x, y in zip(ext, sh) if y is not None]))
            try:
                call()
            except (Unsupported, S.PathInfeasible):
                raise
            except Exception as e:
                c.oblige("total", "consistent shape accepted (%s)" % type(e).__name__, T.bnot(T.bor(*goals)))
                return
            c.oblige("post", "accepted only with a consistent shape", T.bor(*goals))
    return X.run("IO.add_as_fields_for_io", build, real, "%dD, %d axes, %s" % (dim, nd, where), modular=False, file=FILE,
                 replay=dict(type="special", module=CONC, func="shape_registration", dim=dim, nd=nd, where=where, real=real))


# ------------------------------------------------------- description files
def words(c, text):
    """the numbers in a text; None for what is no number"""
    return [number(c, w) for w in re.split(r"[\s,]+", (text or "").strip()) if w]


def nontrivial(ps):
    return [p for p in ps if not (T.is_const(p) and T.const_val(p) == 1)]


def same_dims(c, text, shape):
    ps = words(c, text)
    if any(p is None for p in ps):
        return T.FALSE
    a, b = nontrivial(ps), nontrivial(shape)
    if len(a) != len(b):
        return T.FALSE
    return T.band(*[T.eq(T.to_real(x), T.to_real(y)) for x, y in zip(a, b)])


def lookup(root, path):
    n = root
    for p in [x for x in path.split("/") if x]:
        if not isinstance(n, Node) or p not in n.kids:
            return None
        n = n.kids[p]
    return n


def leaves(node, pre):
    out = {}
    for k, v in node.kids.items():
        if isinstance(v, Node):
            out.update(leaves(v, pre + "/" + k))
        else:
            out[pre + "/" + k] = v
    return out




def clobber(scen, dim, name, real="f64"):
    """data file intact; description files next to it, distinct, consistent"""
    sc = W.SCEN[scen]

    def build(c):
        tokens(c)
        with scratch():
            ok, a = X.vacuous_total(c, lambda: Side(c, sc, dim, real, ""), "registration accepted")
            if not ok:
                return
            init = a.snapshot()
            for rnd, t in (("", S.rvar("time")), (", second save", S.rvar("time2"))):
                want = a.snapshot()
                ok, _ = X.vacuous_total(c, lambda: a.io.save(name, t), "save returns normally" + rnd)
                if not ok:
                    return
                check_files(c, a, sc, dim, name, t, rnd)
                b = Side(c, sc, dim, real, "'%d" % len(rnd), like=a)
                ok, got = X.vacuous_total(c, lambda: b.io.load(name), "load returns normally" + rnd)
                if not ok:
                    return
                time_is(c, got, t, "load" + rnd)
                same(c, b, want, None, "post", "data file intact" + rnd)
                a.renew("''")
    r = X.run("IO.save, generate_xdmf", build, real, "%dD, %s as %r" % (dim, scen, name), modular=False, file=FILE,
              replay=dict(type="special", module=CONC, func="clobber", scen=scen, dim=dim, name=name, real=real))
    if scen == "grid_named_eulerian":
        # recorded finding: both grids get the same description file; anything else is reported
        bad = {x.name.replace(", second save", "") for x in r["records"] if x.status != "proved"}
        if bad and not r["unsupported"] and bad <= {
                "one description file per grid", "/Eulerian/Scalar/w is described once",
                "an entry for every registered Eulerian component"}:
            r["known_key"] = "grid-named-eulerian"
    return r


def check_files(c, a, sc, dim, name, t, rnd):
    data = norm(name)
    fs = store()
    h5 = fs.get(data)
    if not isinstance(h5, H5):
        c.oblige("post", "data file intact" + rnd, T.FALSE)
        return
    c.oblige("post", "data file intact" + rnd, T.TRUE)
    texts = {p: s for p, s in fs.items() if isinstance(s, str)}
    yes = lambda b: T.TRUE if b else T.FALSE
    c.oblige("post", "no other data file" + rnd, yes(all(p == data or isinstance(s, str) for p, s in fs.items())))
    c.oblige("post", "description files next to the data file" + rnd,
             yes(all(posixpath.dirname(p) == posixpath.dirname(data) for p in texts)))
    ngrid = len(W.grid_keys(sc))
    eul = 1 if any(sc["eul"] or []) else 0
    c.oblige("post", "one description file per grid" + rnd,
             yes(len(texts) in ((eul + ngrid,) if eul or sc["eul"] is None else (ngrid, ngrid + 1))))
    root = h5.root
    owner = {}
    for p, s in sorted(texts.items()):
        try:
            x = ET.fromstring(s)
        except ET.ParseError as e:
            c.oblige("post", "description file is well-formed (%s)%s" % (e, rnd), T.FALSE)
            continue
        times = [e.get("Value") for e in x.iter("Time")]
        ws = words(c, times[0]) if len(times) == 1 else [None]
        c.oblige("post", "%s: time of the data file%s" % (posixpath.basename(p), rnd),
                 T.eq(T.to_real(ws[0]), T.to_real(S.pt(t))) if len(ws) == 1 and ws[0] is not None else T.FALSE)
        refs = []
        for e in x.iter("DataItem"):
            if e.get("Format") != "HDF":
                continue
            ref = (e.text or "").strip()
            fn, _, path = ref.rpartition(":")
            refs.append(path)
            okn = fn == name or norm(fn) == data or posixpath.normpath(posixpath.join(posixpath.dirname(data), fn)) == data
            c.oblige("post", "entry refers to the data file" + rnd, yes(okn))
            d = lookup(root, path)
            if not isinstance(d, Dataset):
                c.oblige("post", "entry %s names a dataset%s" % (path, rnd), T.FALSE)
                continue
            c.oblige("post", "entry %s has the dimensions of the dataset%s" % (path, rnd),
                     same_dims(c, e.get("Dimensions"), d._shape))
        tops = ["/".join(r.split("/")[1:3]) if r.startswith("/Lagrangian/") else r.split("/")[1] for r in refs
                if r.startswith("/")]
        c.oblige("post", "a description file describes one grid" + rnd, yes(len(set(tops)) == 1 or not refs and not eul))
        for g in set(tops):
            c.oblige("post", "one description file of %s%s" % (g, rnd), yes(g not in owner))
            owner[g] = refs
            if g.startswith("Lagrangian/") and isinstance(lookup(root, g + "/Grid"), Dataset):
                n = lookup(root, g + "/Grid")._shape[0]
                for e in x.iter("Topology"):
                    if e.get("NumberOfElements") is not None:
                        c.oblige("post", "%s: number of markers%s" % (g, rnd),
                                 same_dims(c, e.get("NumberOfElements"), (n,)))
                c.oblige("post", "%s: positions described%s" % (g, rnd), yes("/%s/Grid" % g in refs))
            elif g == "Eulerian":
                for e in x.iter("Topology"):
                    c.oblige("post", "Eulerian topology has the grid size" + rnd,
                             same_dims(c, e.get("Dimensions"), [S.pt(n) for n in a.sizes]))
    # every stored field is described, once, in the file of its grid
    for top in ("Eulerian",) + tuple("Lagrangian/" + k for k in (root.kids["Lagrangian"].kids if isinstance(
            root.kids.get("Lagrangian"), Node) else {})):
        n = lookup(root, top)
        if n is None:
            continue
        for k in leaves(n, "/" + top):
            if k.endswith("/Connection") and k.count("/") == 3:
                continue
            c.oblige("post", "%s is described once%s" % (k, rnd), yes(owner.get(top, []).count(k) == 1))
    nf = sum((dim if t == "v" else 1) for k, t in a.kinds.items() if k.startswith("e/"))
    nl = sum(1 for k, t in a.kinds.items() if k.startswith("l/")) + ngrid
    c.oblige("post", "an entry for every registered Eulerian component" + rnd,
             yes(len(owner.get("Eulerian", [])) == nf))
    c.oblige("post", "an entry for every registered Lagrangian array" + rnd,
             yes(sum(1 for g, r in owner.items() if g != "Eulerian" for x in r
                     if not (x.endswith("/Connection") and x.count("/") == 3)) == nl))
