"""Registration scenarios of the IO class, shared by the symbolic verification
and the concrete replays.  Contents, sizes, geometry and time are arbitrary;
the scenarios bound which fields and grids are registered and how."""


def E(*calls):
    """Eulerian registration calls; every call is a list of (name, s|v)"""
    return [list(c) for c in calls]


def L(key, *fields, name=None, connect=False):
    return dict(key=key, fields=list(fields), name=name, connect=connect)


SCEN = {
    "empty": dict(eul=None, lag=[]),
    "grid_only": dict(eul=E(), lag=[]),
    "scalar": dict(eul=E([("vorticity", "s")]), lag=[]),
    "vector": dict(eul=E([("velocity", "v")]), lag=[]),
    "mixture": dict(eul=E([("v", "v"), ("a", "s"), ("v_0", "s")], [("Scalar", "v"), ("time", "s")]), lag=[]),
    "names": dict(eul=E([("v_0", "v"), ("v", "v"), ("v_0_1", "s")], [("origin", "s")]), lag=[]),
    "both": dict(eul=E([("w", "s"), ("u", "v")]),
                 lag=[L("p", ("w", "s"), ("u", "v"), name="body"), L("q", ("u", "v"), ("f", "s"))]),
    "bare": dict(eul=None, lag=[L("p")]),
    "bare_eul": dict(eul=E([("w", "s")]), lag=[L("p", name="body")]),
    "one": dict(eul=None, lag=[L("p", ("f", "v"), ("d", "s"), name="body")]),
    "connect": dict(eul=None, lag=[L("p", ("f", "v"), connect=True, name="rod"), L("q", ("g", "s"))]),
    "same_names": dict(eul=None, lag=[L("p", ("f", "v"), ("d", "s"), name="a"), L("q", ("f", "v"), ("d", "s"), name="b"),
                                      L("r", ("d", "v"), ("f", "s"), name="c")]),
    "defaults": dict(eul=None, lag=[L("p", ("f", "s")), L("q", ("f", "v")), L("r", ("h", "v"), connect=True)]),
    "default_clash": dict(eul=None, lag=[L("p", ("f", "s"), name="Lagrangian_grid_0"), L("q", ("f", "s")),
                                         L("r", ("f", "s"), name="Lagrangian_grid_2"), L("t", ("f", "v"))]),
    "repeat": dict(eul=None, lag=[L("p", ("f", "v"), name="body"), L("q", ("f", "s"), name="other"),
                                  L("p", ("d", "s"), ("h", "v"), name="body")]),
    "repeat_connect": dict(eul=E([("w", "s")]), lag=[L("p", ("f", "v"), name="body", connect=True),
                                                     L("p", ("d", "s"), name="body")]),
    "tricky": dict(eul=None, lag=[L("p", ("Grid", "v"), ("Scalar", "s"), ("Connection", "s"), name="Scalar"),
                                  L("q", ("Vector", "v"), ("f", "s"), name="Vector", connect=True)]),
}
SCEN["grid_named_eulerian"] = dict(eul=E([("w", "s")]), lag=[L("p", ("f", "s"), name="eulerian")])

NAMES = ["out.h5", "out", "run.h5dir/out.h5", "a.h5.bak", "./out.h5", "sub/x.y.h5", ".h5", "out.hdf5", "out_eulerian.h5",
         "h5", "out.h5.h5", "/vf_abs/out.h5", "out.H5", "out.xmf", "out_eulerian.xmf"]


def keys(sc):
    """registered arrays: key -> (kind, grid key)"""
    out = {}
    for call in sc["eul"] or []:
        for n, t in call:
            out["e/" + n] = t
    for c in sc["lag"]:
        out["g/" + c["key"]] = "grid"
        for n, t in c["fields"]:
            out["l/%s/%s" % (c["key"], n)] = t
    return out


def shape_of(key, kind, dim, sizes, counts):
    if key.startswith("e/"):
        return ([dim] if kind == "v" else []) + list(sizes)
    n = counts[key.split("/")[1]]
    return [n] if kind == "s" else [dim, n]


def register(io, sc, geom, arrays, skip=()):
    if sc["eul"] is not None and "eul" not in skip:
        io.define_eulerian_grid(**geom)
        for call in sc["eul"]:
            io.add_as_eulerian_fields_for_io(**{n: arrays["e/" + n] for n, t in call})
    for c in sc["lag"]:
        kw = dict(lagrangian_grid=arrays["g/" + c["key"]])
        if c["name"] is not None:
            kw["lagrangian_grid_name"] = c["name"]
        if c["connect"]:
            kw["lagrangian_grid_connect"] = True
        io.add_as_lagrangian_fields_for_io(**kw, **{n: arrays["l/%s/%s" % (c["key"], n)] for n, t in c["fields"]})
    return io


def grid_keys(sc):
    out = []
    for c in sc["lag"]:
        if c["key"] not in out:
            out.append(c["key"])
    return out


def connected(sc):
    return [k for k in grid_keys(sc) if any(c["key"] == k and c["connect"] for c in sc["lag"])]


# mismatches: (label, what the loading side registers differently)
def dropped(sc, what, n):
    """the scenario without the n-th field of a kind (e/l) or without a grid (g), as saved"""
    import copy
    s = copy.deepcopy(sc)
    if what == "e":
        flat = [(i, j) for i, c in enumerate(s["eul"]) for j in range(len(c))]
        i, j = flat[n]
        del s["eul"][i][j]
    elif what == "l":
        flat = [(i, j) for i, c in enumerate(s["lag"]) for j in range(len(c["fields"]))]
        i, j = flat[n]
        del s["lag"][i]["fields"][j]
    elif what == "g":
        k = grid_keys(s)[n]
        s["lag"] = [c for c in s["lag"] if c["key"] != k]
    elif what == "E":
        s["eul"] = None
    elif what == "kind":
        # the other kind of the same name
        flat = [("e", i, j) for i, c in enumerate(s["eul"] or []) for j in range(len(c))]
        flat += [("l", i, j) for i, c in enumerate(s["lag"]) for j in range(len(c["fields"]))]
        w, i, j = flat[n]
        c = s["eul"][i] if w == "e" else s["lag"][i]["fields"]
        c[j] = (c[j][0], "s" if c[j][1] == "v" else "v")
    return s


MISMATCH = [("both", "e", 0), ("both", "e", 1), ("both", "l", 0), ("both", "l", 1), ("both", "l", 2), ("both", "l", 3),
            ("both", "g", 0), ("bare_eul", "g", 0), ("both", "E", 0), ("bare_eul", "E", 0), ("grid_only", "E", 0),
            ("both", "kind", 0), ("both", "kind", 1), ("both", "kind", 2), ("both", "kind", 3),
            ("same_names", "l", 0), ("same_names", "l", 3), ("same_names", "g", 1), ("repeat", "l", 0),
            ("repeat", "l", 2), ("repeat", "l", 3), ("bare", "g", 0), ("connect", "g", 0), ("mixture", "e", 2), ("mixture", "e", 3)]
