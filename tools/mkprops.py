"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
S2, S3 = "sopht/numeric/eulerian_grid_ops/stencil_ops_2d/", "sopht/numeric/eulerian_grid_ops/stencil_ops_3d/"
P2, P3 = "sopht/numeric/eulerian_grid_ops/poisson_solver_2d/", "sopht/numeric/eulerian_grid_ops/poisson_solver_3d/"
IB = "sopht/numeric/immersed_boundary_ops/"
UT = "sopht/utils/"
out = []


def P(id, title, statement, over, qtext, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(kw)
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                    why_tests_cant=why, anchors=a))


P("C01", "Differential operators are the exact central stencils at every interior point",
  "For every grid shape, field content and prefactor, the curl, divergence, Laplacian (diffusion flux) and vorticity-stretching operators "
  "produce at every interior grid point exactly the second-order central-difference value of the operator they are named after, in the documented "
  "(z, y, x) index order and (x, y, z) component order. They modify nothing but their result argument.",
  ["inputs", "configurations"],
  "all grid shapes >= 3 per axis (square or not), all real field contents and prefactors, scalar and vector variants, both precisions, any thread count",
  "The tests use one square grid of random numbers against a numpy copy of the same formula; transposed axes, non-square shapes and untouched inputs are never exercised.",
  [S2 + "inplane_field_curl_2d.py", S2 + "outplane_field_curl_2d.py", S2 + "diffusion_flux_2d.py", S3 + "curl_3d.py", S3 + "divergence_3d.py",
   S3 + "diffusion_flux_3d.py", S3 + "vorticity_stretching_flux_3d.py"],
  [("stencil kernel generators", S3 + "curl_3d.py"), ("stencil kernel generators", S2 + "outplane_field_curl_2d.py")])
P("C02", "Outermost ring of flux and derivative results is exactly zero or untouched",
  "After a flux or derivative operator with ghost-zone reset enabled, every cell of the result outside the stencil's interior is exactly zero whatever it held before; "
  "with reset disabled every such cell keeps its previous value. No cell is missed or hit twice for any grid shape.",
  ["inputs", "configurations"],
  "all grid shapes, all previous contents of the result (including garbage), reset on and off, scalar and vector",
  "Tests compare interior slices only, or start from zero-filled results, so a missed edge or corner or a stale value is invisible.",
  [S2 + "diffusion_flux_2d.py", S2 + "advection_flux_2d.py", S2 + "outplane_field_curl_2d.py", S2 + "inplane_field_curl_2d.py", S3 + "curl_3d.py",
   S3 + "divergence_3d.py", S3 + "diffusion_flux_3d.py", S3 + "advection_flux_3d.py", S3 + "vorticity_stretching_flux_3d.py", S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py"],
  [("boundary reset composed with the stencil kernel", S2 + "diffusion_flux_2d.py"), ("boundary setters", S3 + "elementwise_ops_3d.py")])
P("C03", "Discrete operators satisfy the exact vector-calculus and conservation identities",
  "The discrete divergence of the discrete curl of any field vanishes identically away from the boundary, the curl of a curl is the (wide) vector Laplacian minus gradient of divergence, and the diffusion "
  "and stretching operators are respectively in discrete-divergence (telescoping) form and bilinear. Hence totals are conserved by diffusion for fields supported away from the boundary and linear and constant fields are differentiated exactly.",
  ["inputs"],
  "all field contents on all grid shapes and all prefactors",
  "These are relations between several operators; each operator is tested alone on one random field.",
  [S3 + "curl_3d.py", S3 + "divergence_3d.py", S2 + "inplane_field_curl_2d.py", S2 + "outplane_field_curl_2d.py", S2 + "diffusion_flux_2d.py", S3 + "diffusion_flux_3d.py", S3 + "vorticity_stretching_flux_3d.py"],
  [("consistent sign and axis conventions across operators", S3)])
P("C04", "Advection flux is the conservative upwinded third-order ENO flux",
  "At every cell at least two cells from the boundary the advection flux is the difference of third-order upwind-biased face fluxes over all axes, each face switching on the sign of the sum of the two adjacent velocities, "
  "and the two cells sharing a face use the same face flux. Therefore advection is conservative, and exact for constant fields in a uniform velocity.",
  ["inputs"],
  "all grid shapes >= 5 per axis, all velocity sign patterns including zero and mixed signs, all field contents and spacings, 2D, 3D scalar and 3D vector",
  "The test uses one random velocity field; particular sign combinations on particular axes (front upwind with back downwind, ties) and the sharing of face values are not covered.",
  [S2 + "advection_flux_2d.py", S3 + "advection_flux_3d.py"],
  [("per-axis front and back flux kernels accumulating into the flux", S2 + "advection_flux_2d.py"), ("per-axis front and back flux kernels", S3 + "advection_flux_3d.py")])
P("C05", "Euler forward steps add exactly one flux increment and ignore scratch contents",
  "An Euler forward advection, diffusion or stretching step replaces the advanced field by the field plus dt times the discrete right-hand side evaluated on the old field, cell by cell and component by component, leaving the boundary layer of the field unchanged. "
  "The result depends only on the field, the velocity and the step, never on what the flux scratch array held before, so consecutive steps may share scratch.",
  ["inputs", "histories"],
  "all grid shapes, fields, velocities and time steps; all previous contents of the scratch array; scalar and vector variants; any sequence of steps",
  "Tests run one step from a zeroed scratch array; reuse of dirty scratch, per-component scratch sharing and the boundary layer are not checked.",
  [S2 + "advection_timestep_2d.py", S2 + "diffusion_timestep_2d.py", S3 + "advection_timestep_3d.py", S3 + "diffusion_timestep_3d.py", S3 + "vorticity_stretching_timestep_3d.py"],
  [("flux then elementwise sum", S2 + "diffusion_timestep_2d.py"), ("scratch zeroing before accumulation", S3 + "advection_timestep_3d.py")])
P("C06", "The SSP-RK3 stretching step is the three-stage scheme it names",
  "The third-order strong-stability-preserving stretching step computes w1 = w + L(w), w2 = 3/4 w + 1/4 (w1 + L(w1)), w' = 1/3 w + 2/3 (w2 + L(w2)) with L the discrete stretching increment for the full time step, so it is consistent and third order. "
  "The result is independent of the contents of its flux and mid-step buffers and the velocity is not modified.",
  ["inputs", "histories"],
  "all grid shapes, vorticity and velocity fields, steps and previous buffer contents",
  "The test compares with a Python copy of the implementation on one random field, so it repeats whatever coefficients the implementation uses and cannot see that the combination is not the named scheme.",
  [S3 + "vorticity_stretching_timestep_3d.py", S3 + "vorticity_stretching_flux_3d.py", S3 + "elementwise_ops_3d.py"],
  [("stage composition", S3 + "vorticity_stretching_timestep_3d.py")])
P("C07", "Elementwise operations are exact on every cell and safe in place",
  "Copy, sum, linear combination, complex product, cross product, setting and adding fixed values produce the named result at every cell of the array (including edges and corners), for each vector component with its own value, and change no other array. "
  "They remain correct when the result array is the same array as an operand where the library itself uses them so.",
  ["inputs", "configurations"],
  "all array shapes, contents and scalar parameters; scalar and vector variants; result distinct from or identical to an operand",
  "Tests run each operation once on distinct square arrays.",
  [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py"],
  [("elementwise kernel generators", S2 + "elementwise_ops_2d.py"), ("elementwise kernel generators", S3 + "elementwise_ops_3d.py")])
P("C08", "Setting boundary values writes exactly the boundary layer of the given width",
  "Setting a fixed value on the boundary of a field writes that value (per component for vectors) in every cell within the given width of any face, and no other cell.",
  ["inputs", "configurations"],
  "all shapes, values, contents; every width up to the grid size",
  "Tests check square grids with one or two widths.",
  [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py"],
  [("four/six face slices", S2 + "elementwise_ops_2d.py"), ("six face slices", S3 + "elementwise_ops_3d.py")])
P("C09", "Boundary penalisation damps only the boundary layer with a sine ramp to zero",
  "Boundary penalisation leaves every cell outside the boundary layer unchanged, and in the layer replaces the field by the value at the layer's inner edge times a quarter-sine ramp in the distance to the boundary, independently per axis, going to zero at the boundary and to one at the inner edge scale; "
  "zero width is the identity and every accepted width works.",
  ["inputs", "configurations"],
  "all grid shapes at least twice the width, all contents, spacings and grid origins; widths 0, 1, 2, 3, ...; scalar and vector",
  "Tests use one width on a square grid with a numpy copy of the implementation; corner composition, other widths, non-square grids and shifted coordinates are not covered.",
  [S2 + "penalise_field_boundary_2d.py", S3 + "penalise_field_boundary_3d.py"],
  [("broadcast then sine kernels per face", S2 + "penalise_field_boundary_2d.py"), ("broadcast then sine kernels per face", S3 + "penalise_field_boundary_3d.py")])
P("C10", "Brinkmann penalisation is the implicit convex blend towards the body velocity",
  "The penalised field equals (field + factor*char*penalty)/(1 + factor*char) at every cell, so with a non-negative factor and characteristic function in [0,1] it lies between the field and the penalty field, equals the field outside the body and tends to the penalty field as the factor grows. Inputs are not modified.",
  ["inputs", "configurations"],
  "all fields, non-negative factors and characteristic functions in [0,1]; scalar, vector and fixed-value variants; 2D and 3D",
  "Tests compare one random sample to the same formula and never look at bounds, limits or input preservation.",
  [S2 + "brinkmann_penalise_2d.py", S3 + "brinkmann_penalise_3d.py"],
  [("penalisation kernels", S2 + "brinkmann_penalise_2d.py"), ("penalisation kernels", S3 + "brinkmann_penalise_3d.py")])
P("C11", "Characteristic function is a smooth monotone Heaviside of the level set",
  "The characteristic function is 0 where the level set is below minus the blend width, 1 where it is above the blend width and the smooth sine-blended Heaviside between; it always lies in [0,1], is 1/2 on the interface, is continuous at both ends of the blend and satisfies H(s)+H(-s)=1.",
  ["inputs", "configurations"],
  "all level-set values including exactly at plus or minus the blend width, all positive blend widths, 2D and 3D",
  "Tests sample one level set and one blend width, never the switching values.",
  [S2 + "char_func_from_level_set_2d.py", S3 + "char_func_from_level_set_3d.py"],
  [("piecewise kernel", S2 + "char_func_from_level_set_2d.py"), ("piecewise kernel", S3 + "char_func_from_level_set_3d.py")])
P("C12", "Vorticity updates add exactly the discrete curl of the forcing",
  "Updating vorticity from a velocity forcing adds prefactor times the discrete curl of the forcing at every interior cell and leaves the outer ring, the forcing and the velocity fields unchanged; the penalised-velocity form uses the difference between the penalised and the current velocity as forcing.",
  ["inputs", "configurations"],
  "all grid shapes, fields and prefactors, 2D and 3D, all components",
  "Tests compare one square random case with a copy of the formula; ring cells and input preservation are unchecked.",
  [S2 + "update_vorticity_from_velocity_forcing_2d.py", S3 + "update_vorticity_from_velocity_forcing_3d.py"],
  [("curl update kernels", S2 + "update_vorticity_from_velocity_forcing_2d.py"), ("curl update kernels", S3 + "update_vorticity_from_velocity_forcing_3d.py")])
P("C13", "The Laplacian filter removes exactly the named high-frequency part",
  "For every filter order, type and field, filtering subtracts the order-times repeated one-dimensional quarter second difference (per axis in sequence for the convolution type, the product over axes for the multiplicative type), with values outside the interior treated as zero. "
  "The result does not depend on previous contents of the buffers, boundary cells outside the stencil's reach keep their value and each vector component is filtered independently.",
  ["inputs", "configurations", "histories"],
  "all grid shapes, contents, previous buffer contents; every order; both types; scalar and vector",
  "Tests run one order and fresh zeroed buffers on one random cube and compare with a copy of the algorithm.",
  [S3 + "laplacian_filter_3d.py"],
  [("repeated axis filters with buffers", S3 + "laplacian_filter_3d.py")])
P("C14", "Parallel kernels are deterministic: results do not depend on thread schedule",
  "For every number of threads and every interleaving of loop iterations, each grid kernel yields the same result as sequential execution: no iteration reads or writes a cell that another iteration of the same parallel region writes, also for the in-place uses the library makes.",
  ["schedules", "configurations"],
  "all thread counts and schedules, all grid shapes, all kernels and in-place call patterns of the library",
  "A test observes one schedule of one run and most tests run with a single thread.",
  [S2, S3, UT + "pyst_kernel_config.py"],
  [("kernels compiled with OpenMP pragmas", UT + "pyst_kernel_config.py"), ("pure output/in-place pointwise kernels", S2)])
P("C15", "Kernels never touch memory outside the arrays they are given",
  "For every admissible grid shape, every load and store of every grid kernel and every immersed-boundary kernel for markers whose support lies in the domain falls inside the arrays passed to it, including non-square and minimal grids.",
  ["inputs", "configurations"],
  "all grid shapes down to the minimum size, all kernels and variants; all marker positions whose support is inside the grid",
  "Tests use a few square sizes where a small overrun lands in valid memory and goes unnoticed; nothing checks bounds in compiled code.",
  [S2, S3, IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
  [("ghost-layer handling and iteration slices", S2), ("support index windows", IB)])
P("C16", "Precision, thread count and fixed grid size never change the computed quantity",
  "The same operation generated for single or double precision, for any thread setting and with or without a fixed grid size computes the same mathematical function, in arithmetic of the requested precision throughout, and the precision helpers map 'single'/'double' to the matching types and tolerances. "
  "Unsupported precisions, field types, widths and filter types are rejected with an error instead of silently doing something else.",
  ["configurations"],
  "all combinations of precision, threads and fixed grid size (square and non-square) for every generator; all invalid configuration values",
  "Tests run few combinations, use square sizes only and tolerate single-precision errors, so a constant rounded to single precision inside a double kernel passes.",
  [UT + "precision.py", UT + "pyst_kernel_config.py", S2, S3],
  [("kernel configuration", UT + "pyst_kernel_config.py"), ("precision helpers", UT + "precision.py")])
P("C17", "The unbounded Poisson solver returns the exact free-space convolution",
  "For every right-hand side the unbounded solver returns at every grid point the discrete convolution of the right-hand side with the free-space Green's function of minus the Laplacian (regularised at the origin), with no periodic image contribution, scaled by the cell volume; "
  "it does so independently of previous solves, without modifying the right-hand side, component by component for vector solves.",
  ["inputs", "histories", "configurations"],
  "all right-hand sides, grid shapes (non-square) and domain sizes; any sequence of solves on one solver; 2D, 3D scalar and vector; both precisions",
  "Tests compare one smooth solution in a loose tolerance; wrap-around images, stale doubled-domain buffers after several solves and non-square grids are not covered.",
  [P2 + "UnboundedPoissonSolverPYFFTW2D.py", P3 + "UnboundedPoissonSolverPYFFTW3D.py", P2 + "FFTPyFFTW2D.py", P3 + "FFTPyFFTW3D.py"],
  [("domain doubling and Green's function construction", P2 + "UnboundedPoissonSolverPYFFTW2D.py"), ("domain doubling and Green's function construction", P3 + "UnboundedPoissonSolverPYFFTW3D.py")])
P("C18", "The fast-diagonalisation Poisson solver inverts its discrete operator",
  "For every right-hand side the fast-diagonalisation solver returns the field whose discrete second-difference operator with the selected boundary treatment, scaled by the grid spacing, reproduces minus the right-hand side on the complement of the constant mode, with the constant mode removed; "
  "axes keep their own operator on non-square grids.",
  ["inputs", "configurations"],
  "all right-hand sides, all non-square grid sizes, spacings and supported boundary types, 2D and 3D scalar and vector",
  "Tests use one smooth field on one grid.",
  [P2 + "FastDiagPoissonSolver2D.py", P3 + "FastDiagPoissonSolver3D.py"],
  [("eigen-decomposition per axis and spectral division", P2 + "FastDiagPoissonSolver2D.py"), ("tensor-product transforms", P3 + "FastDiagPoissonSolver3D.py")])
P("C19", "FFT wrappers round-trip and match the standard transform for every grid shape",
  "Forward then inverse transform returns the original array for every grid shape (odd or even extents, non-square), the spectrum has the real-to-complex shape of the grid with the documented axis order, and planning or transforming never corrupts other data.",
  ["inputs", "configurations", "histories"],
  "all grid shapes, contents, precisions, thread counts; repeated use of one plan",
  "Tests use even square sizes.",
  [P2 + "FFTPyFFTW2D.py", P2 + "scipy_fft_2d.py", P3 + "FFTPyFFTW3D.py", P3 + "scipy_fft_3d.py"],
  [("plan creation and array shapes", P2 + "FFTPyFFTW2D.py"), ("scipy wrappers", P2 + "scipy_fft_2d.py")])
P("C20", "Each marker is located in its cell and its support offsets are correct",
  "For every marker position the nearest index is the grid cell whose left node is the last node not beyond the marker on each axis (x, y, z order), and the support distances are the signed distances from the marker to each node of the surrounding window, on the right axes, for every marker independently.",
  ["inputs", "configurations"],
  "all marker counts and positions (including exactly on grid nodes), spacings and coordinate shifts, 2D and 3D",
  "Tests place markers at cell midpoints of one small grid.",
  [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
  [("local support kernel", IB + "EulerianLagrangianGridCommunicator2D.py"), ("local support kernel", IB + "EulerianLagrangianGridCommunicator3D.py")])
P("C21", "Interpolation weights are a discrete delta function",
  "For every marker position the cosine and Peskin weights are the tensor product of the named one-dimensional delta kernel over the grid spacing, are non-negative, and sum to one when multiplied by the cell volume; the Peskin weights also reproduce linear functions exactly (zero first moment).",
  ["inputs", "configurations"],
  "all marker positions relative to the grid (a continuum, including nodes), all spacings, both kernels, 2D and 3D, all marker counts",
  "Tests evaluate weights at a handful of offsets; partition of unity and moment conditions hold for a continuum of offsets and are not tested.",
  [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
  [("cosine and Peskin weight kernels", IB + "EulerianLagrangianGridCommunicator2D.py"), ("cosine and Peskin weight kernels", IB + "EulerianLagrangianGridCommunicator3D.py")])
P("C22", "Interpolation and spreading are adjoint and use the same support window",
  "Interpolating from the grid sums field times weight over the marker's support window times the cell volume; spreading adds, for every marker (accumulating where supports overlap), value times weight on the same window and nothing elsewhere. "
  "They are therefore adjoint to each other and spreading conserves the total of the spread quantity.",
  ["inputs"],
  "all marker counts, positions with support inside the grid, overlapping markers, field contents, scalar and vector, 2D and 3D",
  "Tests use isolated markers and constant fields; overlap accumulation and axis order on non-square grids are not reached.",
  [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
  [("interpolation kernels", IB + "EulerianLagrangianGridCommunicator2D.py"), ("interpolation kernels", IB + "EulerianLagrangianGridCommunicator3D.py")])
P("C23", "Virtual boundary forcing is the PI controller of the velocity mismatch",
  "The Lagrangian force equals stiffness times the accumulated position mismatch plus damping times the flow-minus-body velocity mismatch, where the position mismatch is exactly the time integral (sum of dt times mismatch) over the steps taken; the Eulerian force is the spread of it, replacing or accumulating on the previous content as configured. "
  "Inputs are unmodified and time advances by exactly the steps.",
  ["inputs", "histories", "configurations"],
  "all histories of interaction and time-step calls, all marker counts, fields, coefficients, start times; with and without reset; 2D and 3D",
  "Tests run one interaction from a fresh object; histories, scratch reuse and the accumulate/reset difference over repeated calls are not covered.",
  [IB + "VirtualBoundaryForcing.py"],
  [("penalty force kernels and composition", IB + "VirtualBoundaryForcing.py")])
P("C24", "Lagrangian Brinkmann forcing is the implicit penalisation of the marker velocity",
  "The Lagrangian penalised velocity is the implicit blend of the interpolated flow and the body velocity, the flux is its difference with the flow velocity, the force is the flux times cell volume over the step, and the Eulerian flux is the interpolator-weighted spread of the Lagrangian flux, resetting or accumulating as configured.",
  ["inputs", "histories", "configurations"],
  "all marker counts, fields, coefficients, positive steps; with and without reset; repeated calls; 2D and 3D",
  "Tests run one call of each method on a fresh object.",
  [IB + "experimental/BrinkmannBoundaryForcing.py"],
  [("penalisation kernels and composition", IB + "experimental/BrinkmannBoundaryForcing.py")])
P("C25", "Eulerian fields survive a save and load unchanged",
  "Every scalar and vector grid field registered for output is restored exactly (values, component and axis order) by loading the saved file into equally registered arrays, together with the time stamp, in 2D and 3D and for any mixture of fields.",
  ["inputs", "histories", "configurations"],
  "all field contents, grid shapes and numbers and names of fields, 2D and 3D, both precisions",
  "Tests save one or two fields with fixed names and shapes.",
  [UT + "IO.py"], [("save and load of the Eulerian group", UT + "IO.py")])
P("C26", "Lagrangian grids and fields survive a save and load unchanged",
  "Every Lagrangian grid, its connectivity and every scalar and vector field registered on it is restored exactly by loading the saved file, for any number of grids, any number of markers (including as many as dimensions), fields of equal name on different grids and repeated registration on one grid.",
  ["inputs", "histories", "configurations"],
  "all marker counts >= 1, contents, sequences of registrations, grid names given or defaulted, 2D and 3D",
  "Tests use two grids with distinct names and many markers; the coincidence of marker count and dimension, name reuse and repeated registration are not covered.",
  [UT + "IO.py"], [("registration, save and load of Lagrangian groups", UT + "IO.py")])
P("C27", "Loading rejects files that do not match the registered setup",
  "Loading a file that lacks a registered field or grid or whose grid origin, spacing or size differ from the registered ones raises an error instead of returning silently wrong data, and registering fields of inconsistent shape or before the grid is defined is rejected.",
  ["inputs", "fault_sequences"],
  "all mismatches of field names, grids, origin, spacing and size; all invalid registrations",
  "Tests try one mismatch each at most.",
  [UT + "IO.py"], [("assertions in load and registration", UT + "IO.py")])
P("C28", "Saving never clobbers the data file and writes consistent description files",
  "For every output file name, saving leaves the data file intact and loadable and writes next to it, under derived names distinct from it and from each other, one description file for the Eulerian grid and one per Lagrangian grid, whose entries name existing datasets with the dimensions and time stored in the data file.",
  ["inputs", "configurations"],
  "all file names (with or without the conventional suffix, suffix text inside the directory part), grid names, field sets",
  "Tests use a single conventional file name in the working directory and never parse the description files.",
  [UT + "IO.py"], [("description file generation", UT + "IO.py")])

with open("/verif/properties.jsonl", "w") as f:
    for o in out:
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
print(len(out))
