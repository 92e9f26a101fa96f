"""Concrete replays of the IO contracts: the real class with the real h5py in a
scratch directory."""
import gc
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np

from . import io_scen as W
from .concrete_special import Bad, guarded, DT

SIZES = {2: [(3, 5), (1, 4), (2, 2), (7, 1)], 3: [(3, 5, 4), (1, 2, 3), (3, 3, 3), (4, 1, 2)]}


class scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="vf_io_"))
        os.chdir(self.d)
        for s in ("run.h5dir", "sub"):
            os.mkdir(s)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)
        gc.collect()
        return False

    def path(self, name):
        """absolute names stay inside the scratch directory"""
        if os.path.isabs(name):
            name = os.path.join(self.d, name.lstrip("/"))
            os.makedirs(os.path.dirname(name), exist_ok=True)
        return name


class Side:
    def __init__(self, sc, dim, real, sizes, counts, rng, geom=None, fill=False, io_real=None, layout=0):
        from sopht.utils.IO import IO
        self.sc, self.dim, self.sizes, self.counts = sc, dim, sizes, counts
        self.kinds = W.keys(sc)
        dt = DT[real][0]
        self.arrays = {}
        for k, t in self.kinds.items():
            sh = W.shape_of(k, t, dim, sizes, counts)
            a = np.full(sh, -7, dt) if fill else rng.standard_normal(sh).astype(dt)
            if layout % 4 == 2:     # a view with gaps, and column-major memory
                big = np.zeros(tuple(n + 3 for n in sh), dt)
                v = big[tuple(slice(1, n + 1) for n in sh)]
                v[...] = a
                a = v
            elif layout % 4 == 3:
                a = np.asfortranarray(a)
            self.arrays[k] = a
        self.geom = {k: v.copy() for k, v in (geom or geometry(dim, sizes)).items()}
        self.io = IO(dim=dim, real_dtype=DT[io_real or real][0])
        W.register(self.io, sc, self.geom, self.arrays)

    def copy(self):
        return {k: a.copy() for k, a in self.arrays.items()}

    def renew(self, rng):
        for a in self.arrays.values():
            a[...] = rng.standard_normal(a.shape)


def geometry(dim, sizes):
    return dict(origin=np.arange(1, dim + 1) * 0.37, dx=0.1 / np.arange(1, dim + 1), grid_size=np.array(sizes))


def counts_for(sc, n, dim):
    ks = W.grid_keys(sc)
    base = [4, dim, 1, 2, 7][n % 5]
    same = n >= 3
    return {k: base if same else base + i for i, k in enumerate(ks)}


def runs_of(sc, dim):
    for n in range(4):
        yield n, SIZES[dim][n], counts_for(sc, n, dim)


def compare(bad, side, want, part, desc):
    for k, a in side.arrays.items():
        if part in (None, "eul" if k.startswith("e/") else "lag"):
            bad.exact(a, want[k], array=k, **desc)


# many decimals, tiny, large, zero: none of them survives formatting with fixed decimals or a cast
TIMES = (0.1 + 1e-9, 1e-11 / 3, 98765.432109876543, 0.0, 1e22 / 7)


def roundtrip(task):
    sc, dim, real, part, name = W.SCEN[task["scen"]], task["dim"], task["real"], task["part"], task["name"]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(3)
    for n, sizes, counts in runs_of(sc, dim):
        runs += 1
        desc = dict(scen=task["scen"], dim=dim, real=real, sizes=list(sizes), markers=counts)
        with scratch():
            ok, ab = guarded(bad, dict(desc, step="registration"), lambda: (
                Side(sc, dim, real, sizes, counts, rng, io_real=task.get("io_real"), layout=n),
                Side(sc, dim, task.get("to_real") or real, sizes, counts, rng, fill=True, io_real=task.get("io_real"), layout=n)))
            if not ok:
                break
            a, b = ab
            first = a.copy()
            t = TIMES[n % len(TIMES)]
            ok, _ = guarded(bad, dict(desc, step="save"), lambda: a.io.save(h5_file_name=name, time=t))
            if not ok:
                break
            compare(bad, a, first, part, dict(desc, step="save must not modify"))
            for v in (getattr(b.io, "lagrangian_grid_connection", None) or {}).values():
                v[...] = -3
            ok, got = guarded(bad, dict(desc, step="load"), lambda: b.io.load(h5_file_name=name))
            if not ok:
                break
            bad.exact(got, t, step="time", **desc)
            compare(bad, b, first, part, dict(desc, step="restored"))
            compare(bad, a, first, part, dict(desc, step="load must not modify the saved arrays"))
            if part == "lag":
                import h5py
                ca = getattr(a.io, "lagrangian_grid_connection", {})
                cb = getattr(b.io, "lagrangian_grid_connection", {})
                bad.exact(len(ca), len(W.connected(sc)), step="number of connectivities", **desc)
                with h5py.File(name, "r") as f:
                    for g in ca:
                        nm = f["Lagrangian"][g]["Grid"].shape[0]
                        bad.exact(np.asarray(cb.get(g)), np.arange(nm), step="connectivity " + str(g), **desc)
            other = os.path.join(os.path.dirname(name), "later_" + os.path.basename(name))
            a.renew(rng)
            second = a.copy()

            def later():
                a.io.save(other, 1.25)
                bad.exact(b.io.load(other), 1.25, step="time of second file", **desc)
                compare(bad, b, second, part, dict(desc, step="second file"))
                bad.exact(a.io.load(name), t, step="time of first file", **desc)
                compare(bad, a, first, part, dict(desc, step="first file into the arrays it was saved from"))
                a.renew(rng)
                third = a.copy()
                a.io.save(name, 3.5)
                bad.exact(b.io.load(name), 3.5, step="time of overwritten file", **desc)
                compare(bad, b, third, part, dict(desc, step="overwritten file"))
            guarded(bad, dict(desc, step="later saves and loads"), later)
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])


def refused(bad, desc, fn):
    try:
        fn()
    except Exception:
        return
    bad.append(dict(desc, got="returned normally", expected="an error"))


def missing(task):
    sc, dim, real = W.SCEN[task["scen"]], task["dim"], task["real"]
    less = W.dropped(sc, task["what"], task["n"])
    bad, runs = Bad(), 0
    rng = np.random.default_rng(3)
    for n, sizes, counts in runs_of(sc, dim):
        runs += 1
        desc = dict(scen=task["scen"], file_lacks="%s%d" % (task["what"], task["n"]), dim=dim, sizes=list(sizes), markers=counts)
        with scratch():
            ok, a = guarded(bad, desc, lambda: Side(less, dim, real, sizes, counts, rng))
            ok2, _ = guarded(bad, desc, lambda: a.io.save("out.h5", 0.5))
            if ok and ok2:
                b = Side(sc, dim, real, sizes, counts, rng)
                refused(bad, desc, lambda: b.io.load("out.h5"))
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])


def geometry_mismatch(task):
    sc, dim, real, which = W.SCEN[task["scen"]], task["dim"], task["real"], task["which"]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(3)
    for n, sizes, counts in runs_of(sc, dim):
        for ax in range(dim if which != "markers" else len(counts)):
            variants = [1.5, 1.0001, -1.0] if which in ("origin", "dx") else [1, 2, -1, "one"]
            for v in variants + [None]:
                geom, sz, cn = geometry(dim, sizes), list(sizes), dict(counts)
                if v is None:
                    pass
                elif which in ("origin", "dx"):
                    geom[which][ax] *= v
                elif which == "grid_size":
                    new = 1 if v == "one" else sz[ax] + v
                    if new < 1 or new == sz[ax]:
                        continue
                    sz[ax] = new
                    geom["grid_size"] = np.array(sz)
                else:
                    k = sorted(cn)[ax]
                    new = 1 if v == "one" else cn[k] + v
                    if new < 1 or new == cn[k]:
                        continue
                    cn[k] = new
                runs += 1
                desc = dict(scen=task["scen"], which=which, axis=ax, change=v, dim=dim, sizes=list(sizes), markers=counts)
                for flip in (False, True):
                    with scratch():
                        one = lambda: Side(sc, dim, real, sizes, counts, rng)
                        two = lambda: Side(sc, dim, real, sz, cn, rng, geom)
                        a, b = (two(), one()) if flip else (one(), two())
                        a.io.save("out.h5", 0.5)
                        if v is None:
                            guarded(bad, dict(desc, what="equal setup refused"), lambda: b.io.load("out.h5"))
                        else:
                            refused(bad, desc, lambda: b.io.load("out.h5"))
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])


def bad_registration(task):
    from sopht.utils.IO import IO
    dim, real = task["dim"], task["real"]
    dt = DT[real][0]
    bad = Bad()
    for d in (0, 1, 4, -2):
        refused(bad, dict(dimension=d), lambda: IO(dim=d, real_dtype=dt))
    for sizes in SIZES[dim]:
        refused(bad, dict(what="Eulerian field before the grid"), lambda: IO(
            dim=dim, real_dtype=dt).add_as_eulerian_fields_for_io(f=np.zeros(sizes, dt)))
        for k in (0, 1, 3):
            refused(bad, dict(what="Lagrangian grid of %d axes" % k), lambda: IO(
                dim=dim, real_dtype=dt).add_as_lagrangian_fields_for_io(np.zeros((dim, 4, 4)[:k], dt)))
    return dict(runs=4 + 4 * len(SIZES[dim]), bad=bad[:5])


def shape_registration(task):
    import itertools
    from sopht.utils.IO import IO
    dim, real, nd, where = task["dim"], task["real"], task["nd"], task["where"]
    dt = DT[real][0]
    bad, runs = Bad(), 0
    for sizes in SIZES[dim][:2]:
        N = 4
        vals = sorted(set(sizes) | {1, dim, N, 6})
        for sh in itertools.product(vals, repeat=nd):
            runs += 1
            io = IO(dim=dim, real_dtype=dt)
            f = np.zeros(sh, dt)
            if where == "grid":
                good, call = nd == 2 and sh[0] == dim, lambda: io.add_as_lagrangian_fields_for_io(f, "g")
            elif where == "eul":
                io.define_eulerian_grid(**geometry(dim, sizes))
                good, call = sh in (tuple(sizes), (dim,) + tuple(sizes)), lambda: io.add_as_eulerian_fields_for_io(f=f)
            else:
                g = np.zeros((dim, N), dt)
                good, call = sh in ((N,), (dim, N)), lambda: io.add_as_lagrangian_fields_for_io(g, "g", f=f)
            desc = dict(where=where, shape=list(sh), sizes=list(sizes), markers=N)
            if good:
                guarded(bad, dict(desc, what="consistent shape refused"), call)
            else:
                refused(bad, desc, call)
    return dict(runs=runs, bad=bad[:5])


def nums(text):
    try:
        return [float(w) for w in re.split(r"[\s,]+", (text or "").strip()) if w]
    except ValueError:
        return None


def dims_match(text, shape):
    v = nums(text)
    return v is not None and [x for x in v if x != 1] == [x for x in shape if x != 1]


def clobber(task):
    import h5py
    sc, dim, real = W.SCEN[task["scen"]], task["dim"], task["real"]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(3)
    for n, sizes, counts in runs_of(sc, dim):
        runs += 1
        with scratch() as tmp:
            name = tmp.path(task["name"])
            desc = dict(scen=task["scen"], file_name=task["name"], dim=dim, sizes=list(sizes), markers=counts)
            fail = lambda **k: bad.append(dict(desc, **k))
            a = Side(sc, dim, real, sizes, counts, rng)
            want = a.copy()
            t = TIMES[n % len(TIMES)]
            ok, _ = guarded(bad, dict(desc, step="save"), lambda: a.io.save(name, t))
            if not ok:
                break
            data = os.path.abspath(name)
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(tmp.d) for f in fs)
            b = Side(sc, dim, real, sizes, counts, rng, fill=True)
            ok, got = guarded(bad, dict(desc, step="load"), lambda: b.io.load(name))
            if not ok:
                break
            bad.exact(got, t, step="time", **desc)
            compare(bad, b, want, None, dict(desc, step="data file intact"))
            texts = [f for f in files if f != data]
            if any(os.path.dirname(f) != os.path.dirname(data) for f in texts):
                fail(what="description files elsewhere", files=texts)
            ngrid, eul = len(W.grid_keys(sc)), 1 if any(sc["eul"] or []) else 0
            if len(texts) not in ((eul + ngrid,) if eul or sc["eul"] is None else (ngrid, ngrid + 1)):
                fail(what="number of description files", files=[os.path.relpath(f, tmp.d) for f in texts])
            owner = {}
            with h5py.File(name, "r") as f:
                for p in texts:
                    try:
                        x = ET.parse(p).getroot()
                    except ET.ParseError as e:
                        fail(what="not well-formed", file=os.path.relpath(p, tmp.d), error=str(e))
                        continue
                    tv = [e.get("Value") for e in x.iter("Time")]
                    if len(tv) != 1 or nums(tv[0]) != [t]:
                        fail(what="time", got=str(tv), expected=str(t))
                    refs = []
                    for e in x.iter("DataItem"):
                        if e.get("Format") != "HDF":
                            continue
                        fn, _, path = (e.text or "").strip().rpartition(":")
                        refs.append(path)
                        if not (fn == name or os.path.abspath(fn) == data or os.path.normpath(os.path.join(
                                os.path.dirname(data), fn)) == data):
                            fail(what="entry refers to another file", got=fn)
                        if path not in f or not isinstance(f[path], h5py.Dataset):
                            fail(what="entry names no dataset", got=path)
                        elif not dims_match(e.get("Dimensions"), f[path].shape):
                            fail(what="dimensions of " + path, got=str(e.get("Dimensions")), expected=str(f[path].shape))
                    tops = {"/".join(r.split("/")[1:3]) if r.startswith("/Lagrangian/") else r.split("/")[1] for r in refs
                            if r.startswith("/")}
                    if len(tops) != 1 and (refs or eul):
                        fail(what="describes several grids", got=sorted(tops))
                    for g in tops:
                        if g in owner:
                            fail(what="two description files", got=g)
                        owner[g] = refs
                        if g.startswith("Lagrangian/") and "/%s/Grid" % g not in refs:
                            fail(what="positions not described", got=g)
                        for e in x.iter("Topology"):
                            if g == "Eulerian" and not dims_match(e.get("Dimensions"), sizes):
                                fail(what="Eulerian topology", got=str(e.get("Dimensions")))
                            if g != "Eulerian" and e.get("NumberOfElements") is not None and not dims_match(
                                    e.get("NumberOfElements"), (f[g]["Grid"].shape[0],)):
                                fail(what="number of markers", got=str(e.get("NumberOfElements")))
            nf = sum((dim if q == "v" else 1) for k, q in a.kinds.items() if k.startswith("e/"))
            nl = sum(1 for k in a.kinds if k.startswith("l/")) + ngrid
            ge = len(set(owner.get("Eulerian", [])))
            gl = sum(1 for g, r in owner.items() if g != "Eulerian" for q in set(r)
                     if not (q.endswith("/Connection") and q.count("/") == 3))
            if (ge, gl) != (nf, nl):
                fail(what="number of entries (Eulerian, Lagrangian)", got=str((ge, gl)), expected=str((nf, nl)))
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])
