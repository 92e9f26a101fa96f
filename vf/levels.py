"""verification level claimed per property (default: proof)"""
LEVEL = {k: "other" for k in ("C25", "C26", "C27", "C28")}
EXPLAIN = {k: (
    "Deductive verification of the real IO class against the assumed contract of h5py: for every scenario all "
    "obligations are discharged for all field contents, grid sizes, marker counts, geometries and times (symbolic). "
    "BOUNDED in one respect: which fields and grids are registered, their names, the order of registration and the "
    "file names are enumerated scenarios (vf/io_scen.py), not quantified; so this is not counted as proved.")
    for k in LEVEL}
