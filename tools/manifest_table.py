EXTRA = {k: ("The deciding step quantifies over contents, sizes, geometry and time; registration scenarios, field and "
             "grid names and file names are enumerated (bounded, vf/io_scen.py), hence level 'other'. Assumes a "
             "contract of h5py (vf/stubs_io.py: a file is a tree of snapshots) and of open().")
         for k in ("C25", "C26", "C27", "C28")}
NA = {}
