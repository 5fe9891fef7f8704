"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["MDLIB/" + f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

TESTS = "The 8 repository tests run seven 21x21 shear boxes for one step each and compare only the number of nonlinear iterations; "

p("C01", "Every input-file parameter reaches the model with its value, units, default",
  "For every input file, each run parameter, switch and per-phase material constant that the model uses equals the value on the line naming it, converted from SI to model units by the physical dimension of that quantity, or its fixed default when no line names it. Comment lines, spacing, unrelated lines and the order of the run-parameter lines never change the result, each material constant is taken from the block of its own phase, and an input that contradicts itself, names an unknown flow law or does not exist stops the program in good order instead of being run.",
  ["inputs", "configurations"], "All input files: any subset of keys present, any order, any values, any scaling quantities, any number of phases.",
  TESTS + "they exercise about 70 of the ~250 keys at one value each and never the defaults of the others.",
  ["InputOutput.c", "FlowLaws.c"], [("ReadInputFile", "InputOutput.c"), ("ReadInt2/ReadDou2/ReadMatProps/ReadChar", "InputOutput.c"), ("ScaleMe", "InputOutput.c")],
  [("params/mat_prop/scale", "parsed configuration", "mdoodz.h, mdoodz-private.h")], ["value returned by the input reader"])

p("C02", "A run does exactly the requested steps and outputs, with consistent time",
  "Every run that finishes normally executes exactly the requested number of steps, numbered consecutively from its starting step, and writes the initial state and then one output and one restart file at each step that is a multiple of the output interval, and none elsewhere. The model time recorded with every step equals the previous time plus the step size that was actually applied to that step, and never decreases.",
  ["configurations", "histories"], "All combinations of step count, output interval, restart start step, output switches and time-step settings.",
  TESTS + "a single step with one output is all they reach.",
  ["Main_DOODZ.c", "HDF5Output.c", "InputOutput.c"], [("RunMDOODZ time loop", "Main_DOODZ.c"), ("WriteOutputHDF5", "HDF5Output.c"), ("MakeBreakpointParticles", "InputOutput.c")],
  [("model.step/time/dt", "step counter, time, step size", "Main_DOODZ.c")], ["files written", "Model/Params dataset", "breakpoint header"])

p("C03", "A restarted run continues exactly as the uninterrupted run would have",
  "For every step at which a restart file was written, a run restarted from it produces at each later step the same model state (markers, surface, grid fields, time and step size) as the run that was never interrupted. This holds for every combination of the physics switches whose history the restart file carries, whether or not the resumed run is asked for a different final step; time series recorded before the restart are kept.",
  ["histories", "configurations", "crash_points"], "All restart steps x elasticity, thermal, free surface, finite strain, anisotropy, P-T tracking, Newton switches.",
  "No test restarts a run.",
  ["InputOutput.c", "Main_DOODZ.c"], [("MakeBreakpointParticles / LoadBreakpointParticles", "InputOutput.c"), ("restart branch of RunMDOODZ", "Main_DOODZ.c")],
  [("breakpoint file", "complete serialised state", "InputOutput.c")], ["breakpoint files and HDF5 outputs of both runs"])

p("C04", "With restart-file clean-up on, a crash never leaves a run without a restart file",
  "When old restart files are being cleaned up, at every instant after the first restart file has been completed there is on disk at least one complete restart file whose name carries the step it was written at, and after each output the newest one is present. Clean-up removes or replaces only restart files of this run that are older than the newest complete one, and no restart file ever carries a step number other than that of the state it holds.",
  ["crash_points", "histories", "configurations"], "All crash points (between any two file-system operations) of all runs with clean-up enabled, for any output interval and start step.",
  "No test enables clean-up or kills a run.",
  ["InputOutput.c", "Main_DOODZ.c"], [("DeletePreviousBreakpoint", "InputOutput.c"), ("MakeBreakpointParticles", "InputOutput.c")],
  [("set of Breakpoint*.dat files", "restart points on disk", "writer_subfolder")], ["system/rename/fopen calls", "directory contents"])

p("C05", "The time step always respects its limits and shrinks with velocity",
  "With a variable time step, the step chosen is positive, never exceeds the maximum step, never exceeds the Courant limit computed from the largest velocity in the model (or from the surface and chemical or thermal limits when these apply) and the cell size, and never falls below the minimum step nor grows faster than the permitted factor over the previous step. With a constant time step it stays at the prescribed value, and markers are advected by sub-steps that together cover exactly the step.",
  ["inputs", "histories", "configurations"], "All velocity fields, grids, previous steps and time-step settings.",
  TESTS + "the time step never matters for the iteration count.",
  ["AdvectionRoutines.c", "Main_DOODZ.c"], [("EvaluateCourantCriterion", "AdvectionRoutines.c"), ("advection sub-stepping", "Main_DOODZ.c")],
  [("dt, dt0, dt_max, dt_min", "time step control", "params")], ["time step after the selection", "arguments of marker advection"])

p("C06", "A step is accepted only when the nonlinear residual criteria allow it",
  "Iterations of a step stop only because the mechanical residuals meet the absolute or relative tolerances, the iteration limit is reached, or the search stagnates; once the tolerances are met no further correction is applied. In safe mode a stagnated step is retried from the exact starting state with a smaller time step a bounded number of times, and a step that never converges aborts the run instead of being accepted; Picard iterations hand over to Newton only under the configured conditions.",
  ["histories", "fault_sequences", "configurations"], "All residual histories x solver settings (Newton, Picard-to-Newton, tolerances, iteration limits, safe mode, stagnation).",
  TESTS + "all of them converge in at most a handful of iterations; stagnation, retry and abort paths are never entered.",
  ["Main_DOODZ.c", "StokesRoutines.c"], [("nonlinear loop of RunMDOODZ", "Main_DOODZ.c")],
  [("nit, stagnated, nstag, dt", "iteration state", "Main_DOODZ.c")], ["sequence of residual evaluations, solves, line searches, outputs and exit status"])

p("C07", "The line search never accepts a correction that makes the residual grow",
  "Among the trial lengths of a correction the one with the smallest total residual is applied, provided it reduces the total residual of momentum and continuity; failing that, the best one that reduces both momentum components, then horizontal momentum alone, then vertical momentum alone. Otherwise the step is reported as stagnated and the solution left as it was, unless growth was explicitly allowed (then the smallest length is taken).",
  ["inputs", "configurations"], "All residual landscapes along the search direction and all line-search settings.",
  TESTS + "linear cases always take the full step.",
  ["StokesRoutines.c", "Main_DOODZ.c"], [("LineSearchDecoupled", "StokesRoutines.c")],
  [("alpha", "accepted length", "StokesRoutines.c")], ["returned length, stagnation flag, solution fields"])

p("C08", "Boundary conditions hold what the set-up asked for, and only at boundaries",
  "Each boundary node of the velocity, pressure and temperature grids carries exactly the type and value that the set-up returned for its position and coordinates, interior nodes are free unless the set-up says otherwise, and the stock pure/simple-shear conditions impose the requested background strain rate exactly. A solved velocity or temperature field honours every prescribed value: a value prescribed off the node is the mean of the node and its ghost, and an inconsistent set-up is refused.",
  ["inputs", "configurations"], "All grid sizes, domain extents, periodicity, and boundary callbacks.",
  TESTS + "a wrong boundary value would leave the iteration counts unchanged.",
  ["Setup.c", "StokesRoutines.c", "Main_DOODZ.c"], [("SetBCs", "Setup.c"), ("SetPureShearBCVx..SetSimpleShearBCVz", "Setup.c"), ("ApplyBC", "StokesRoutines.c")],
  [("BCu/BCv/BCp/BCt", "types and values", "mesh")], ["mesh boundary arrays after set-up", "velocity field"])

p("C09", "Every unknown gets one equation; nothing else moves when a solution is applied",
  "Every free velocity and pressure node is numbered exactly once, consecutively and without gaps, no constrained node is numbered, and the eastern periodic copies of horizontal velocity share the number of their western partner. Applying a correction changes exactly the numbered nodes, each by its own entry, and leaves the prescribed ones untouched.",
  ["inputs", "configurations"], "All patterns of node types (free, Dirichlet, periodic, air) on all grids.",
  TESTS + "only fully wet rectangular boxes are numbered.",
  ["StokesAssemblyDecoupled.c", "StokesRoutines.c", "Main_DOODZ.c"], [("EvalNumberOfEquations", "StokesRoutines.c"), ("ExtractSolutions2", "StokesRoutines.c"), ("InitialiseSolutionVector", "StokesRoutines.c")],
  [("eqn_u/v/p", "equation numbers", "SparseMat")], ["equation numbers", "fields before/after"])

p("C10", "Every accepted step satisfies discrete mass and force balance",
  "In every accepted mechanical step the velocity field conserves mass in every cell that contains material to within the tolerance, and in every momentum node stress gradients, pressure gradient and gravity balance to within the tolerance, for the viscosities, densities and boundary values of that step. The assembled operator (for linear materials also the Jacobian) and the residual used for the tolerance test describe this same balance.",
  ["inputs", "configurations"], "All viscosity/density distributions, boundary conditions, grid shapes, free surface on/off, linear solvers.",
  TESTS + "iteration counts do not see a consistently wrong coefficient.",
  ["StokesAssemblyDecoupled.c", "StokesRoutines.c", "Solvers.c"], [("BuildStokesOperatorDecoupled", "StokesAssemblyDecoupled.c"), ("EvaluateStokesResidualDecoupled", "StokesRoutines.c"), ("SolveStokesDefectDecoupled", "Solvers.c")],
  [("u_in, v_in, p_in, rhs", "solution", "mesh")], ["HDF5 output fields", "residual arrays"])

p("C11", "Results do not depend on the number of threads",
  "The same input produces the same assembled equations, marker-to-grid averages, marker population and model state for every number of threads and every thread schedule, up to the rounding of reordered sums.",
  ["schedules", "configurations"], "All thread counts and schedules of the parallel build.",
  "The tests are built and run without threads.",
  ["StokesAssemblyDecoupled.c", "ParticleRoutines.c", "AdvectionRoutines.c", "ParticleReseeding.c", "RheologyDensity.c"], [("DomainDecompositionDecoupled / MergeParallelMatrixDecoupled", "StokesAssemblyDecoupled.c"), ("P2Mastah per-thread accumulation", "ParticleRoutines.c")],
  [("per-thread partial matrices and sums", "", "StokesAssemblyDecoupled.c")], ["matrix arrays", "outputs for 1..8 threads"])

p("C12", "Markers move along the velocity field and never leave the model silently",
  "In each step every active marker moves by the chosen integration scheme along the velocity of the grid at its position for exactly the step, carrying its identity and properties unchanged. A marker whose path leaves the domain is deactivated for good, or re-enters on the opposite side with the same properties when the domain is periodic; a deactivated marker never moves or contributes again.",
  ["inputs", "histories", "configurations"], "All marker positions, velocity fields, integration orders, periodic or closed boxes.",
  TESTS + "the marker state after advection is never examined.",
  ["AdvectionRoutines.c", "ParticleRoutines.c", "ParticleReseeding.c"], [("RogerGunther", "AdvectionRoutines.c"), ("isout / isoutPart", "ParticleRoutines.c"), ("V2P interpolation", "AdvectionRoutines.c")],
  [("particles.x,z,phase", "marker state", "markers")], ["marker arrays before/after"])

p("C13", "Marker population: inflow and reseeding fill gaps without corrupting markers",
  "After reseeding every material quarter of a cell that was under-populated and had neighbours has received one marker at its centre that copies the state of its nearest neighbour (or, where so configured, the grid values at its place), and no existing marker is changed, moved or lost. The number of markers never exceeds the allocated capacity (the run stops instead): slots of deactivated markers are reused first, new ones appended, and markers entering through the sides are cloned at the boundary exactly once.",
  ["histories", "inputs"], "All marker distributions, holes, air cells, capacity levels and inflow histories.",
  TESTS + "one step leaves every cell fully populated.",
  ["ParticleReseeding.c", "ParticleRoutines.c", "AdvectionRoutines.c"], [("CountPartCell", "ParticleRoutines.c"), ("ParticleInflowCheck", "ParticleReseeding.c"), ("AssignMarkerProperties", "ParticleRoutines.c")],
  [("Nb_part, Nb_part_max, generation", "population", "markers")], ["marker arrays before/after"])

p("C14", "Marker-to-grid transfer is a weighted average of the nearby active markers",
  "Each grid value computed from markers is the distance-weighted (arithmetic, harmonic or geometric) mean of the active markers around that node and so lies between their extremes; constant fields are reproduced exactly, deactivated markers and air nodes have no influence, and phase fractions are non-negative and sum to one wherever markers exist.",
  ["inputs", "configurations"], "All marker distributions, averaging modes, stencils, periodicity and node types.",
  TESTS + "their comparison is insensitive to the weights.",
  ["ParticleRoutines.c", "RheologyDensity.c"], [("P2Mastah", "ParticleRoutines.c"), ("CountPartCell2 / phase_perc", "ParticleRoutines.c")],
  [("phase_perc_n/s, T0_n, ...", "grid averages", "mesh")], ["grid arrays"])

p("C15", "The initial marker cloud covers the domain and carries the set-up's answers",
  "Initially each cell holds exactly the requested number of markers, regularly spaced inside the domain, and every marker carries the phase, temperature, composition and other values that the set-up returned for its position, in model units, or the fixed default when the set-up does not define that quantity; a phase number that does not exist stops the run. With an initial surface exactly the places below it hold a marker, and a saved cloud is loaded back unchanged.",
  ["inputs", "configurations"], "All grid sizes, markers per cell, noise on/off, callbacks defined or not, with or without free surface.",
  TESTS + "marker properties are not compared.",
  ["Setup.c", "ParticleRoutines.c"], [("PutPartInBox", "ParticleRoutines.c"), ("SetParticles / ValidatePhase", "Setup.c")],
  [("markers", "initial cloud", "markers")], ["marker arrays after set-up"])

p("C16", "Air and rock nodes are separated exactly by the free surface",
  "With a free surface a cell is material exactly when its centre lies on or below the surface (one-cell-wide spikes excepted), and no material cell touches plain air: excluded cells beside material form the zero-pressure rim. A velocity node is active exactly when one of the two cells it separates is material (wall and ghost columns follow their inner neighbour), an inner vertex amid material cells is active, excluded cells get the surface temperature, and the cell or vertex just below the surface weighs in proportion to the part below it; without a free surface no node is excluded. In a step, excluded nodes have no equation and no viscosity, and the others do.",
  ["inputs", "histories", "configurations"], "All topographies, grids and step histories.",
  "No test has a free surface.",
  ["FreeSurface.c", "Main_DOODZ.c", "RheologyDensity.c"], [("CellFlagging / SurfaceDensityCorrection", "FreeSurface.c")],
  [("BCp/BCu/BCv/BCg/BCt types 30, 31", "air flags", "mesh"), ("rho_n, rho_s, FreeSurfW", "weights", "mesh")], ["node type arrays", "densities"])

p("C17", "The free surface is a single-valued line that tracks its markers",
  "After each advection (sub-)step the surface has one finite height per vertex column, which is the distance-weighted mean of the surface markers around it (or, updated incrementally, the previous height plus the weighted mean of their vertical motion in that sub-step), so a level surface stays level. Every half column is kept supplied with surface markers lying on the surface, within the allocated number, without moving the others; then all are put on the line through the heights. Material markers above the line, and no others, are deactivated. Surface processes (diffusion, deposition below the base level, valley incision, sediment markers, zero mean) change the heights and add markers exactly by their rule; the walls do not diffuse and no height appears where there is no source.",
  ["histories", "inputs", "configurations"], "All surface shapes, velocities and surface-process settings over any number of steps.",
  "No test has a free surface.",
  ["FreeSurface.c", "Main_DOODZ.c"], [("InterpTopoPart2Grid / MarkerChainPolyFit / RemeshMarkerChain", "FreeSurface.c"), ("CleanUpSurfaceParticles / CorrectTopoIni / DiffuseAlongTopography / AddPartSed / KeepZeroMeanTopo", "FreeSurface.c")],
  [("topo, topo_chain", "surface", "surface, markers")], ["surface arrays", "marker phases"])

p("C18", "Heat conduction conserves energy and keeps temperatures within bounds",
  "Each thermal step (and each of several steps asked for at once) solves the implicit energy balance of every material cell: stored heat change per step equals the conductive flow from the neighbours, from held boundary, periodic and surface temperatures and through the bottom, plus radiogenic, dissipative and adiabatic sources; air cells exchange nothing and are reset. Hence with insulated or periodic sides and no sources total heat is conserved, and without sources no temperature leaves the range spanned by the previous field and the held values. The step starts from the temperature carried by the markers.",
  ["inputs", "configurations"], "All conductivities, capacities, densities, time steps, boundary types and air cells.",
  "No test solves the thermal problem for its values.",
  ["ThermalRoutines.c", "ThermalSolver.c", "ParticleRoutines.c", "Main_DOODZ.c"], [("EnergyDirectSolve / ThermalSteps", "ThermalRoutines.c"), ("FactorEnergyCHOLMOD / SolveEnergyCHOLMOD", "ThermalSolver.c")],
  [("T, T0_n, BCt", "temperature", "mesh")], ["temperature field before/after"])

p("C19", "Marker histories accumulate correctly and never run backwards",
  "Peak temperature and pressure of a marker never decrease and equal the running maximum of its values; the accumulated strains, total and per mechanism, never decrease and grow by the strain rate of that mechanism at the marker times the step; the deformation gradient of a marker is multiplied by that of the step and the finite-strain aspect ratio on the grid is that of the averaged gradient; and only the configured phase changes are applied, each exactly when its condition holds and to every active marker that satisfies it, dual phase included. A history field belongs to its marker: inactive markers and other markers' records are not affected.",
  ["histories", "inputs"], "All sequences of steps, strain rates, P-T paths and phase-change settings.",
  TESTS + "no history field is inspected.",
  ["RheologyParticles.c", "ParticleRoutines.c", "Main_DOODZ.c"], [("AccumulatedStrainII / UpdateMaxPT / TransmutateMarkers", "RheologyParticles.c, ParticleRoutines.c")],
  [("strain*, Tmax, Pmax, phase", "histories", "markers")], ["marker arrays between steps"])

p("C20", "Constitutive updates stay within their physical bounds",
  "Effective viscosities lie between the cut-offs and the strain rates of the creep mechanisms and of elasticity add up to the total; the stress of a plastic material does not exceed its yield stress (plus viscoplastic overstress) nor its stress limit, plastic flow never runs backwards and carries exactly the strain rate the others leave; melt fractions lie between zero and one, follow the configured solidus and liquidus, grow with temperature and do not depend on the unit scaling; softened strength parameters lie between their initial and final values and change monotonically and continuously with strain; density follows the selected equation of state or table, also outside the table's range; mixtures follow the selected mean and lie between their phases.",
  ["inputs", "configurations"], "All pressures, temperatures, strains, strain rates and material parameters.",
  TESTS + "a few linear/power-law materials at one state.",
  ["RheologyDensity.c", "MeltingRoutines.c", "MiscFunctions.c", "AnisotropyRoutines.c"], [("ViscosityConcise", "RheologyDensity.c"), ("PartialMelting", "MeltingRoutines.c"), ("EvaluateDensity, Softening", "RheologyDensity.c")],
  [("eta, rho, C, fric, phi", "material state", "RheologyDensity.c")], ["function results"])

p("C21", "Output files hold the complete model state in SI units",
  "Every due output file exists and is a complete readable record of the step it names: exactly the fields the switches ask for, on the nodes they live on, each value equal to the state at that moment (marker quantities averaged on cells; tracked history reading zero Celsius and no pressure in air) converted to SI, with a header giving time, extents, resolution and step size. Phase pictures show the phase of the marker nearest to each picture cell's middle, -1 where there is none. Time series hold one entry per step with means over the rock cells and never lose their history. Marker files list every marker.",
  ["configurations", "histories"], "All combinations of output switches, scalings, grids and steps.",
  TESTS + "they read one array (iteration counts) of the file.",
  ["HDF5Output.c", "InputOutput.c"], [("WriteOutputHDF5 / WriteOutputHDF5Particles", "HDF5Output.c"), ("ScaleBack*", "HDF5Output.c")],
  [("Output*.gzip.h5", "output record", "writer_subfolder")], ["HDF5 file contents vs mesh"])

p("C22", "The grid always tiles the current domain",
  "At every time the grid covers the current domain with equal cells whose vertices, centres, staggered and extended nodes sit exactly where they should. With a moving box each wall moves by the mean velocity prescribed on it times the step, all coordinates following, and the initial coordinates are kept. Centre/vertex transfers are the quarter sums of the surrounding values, with air centres counting as zero and air vertices zero, periodic sides wrapping; the framed copy of a cell field repeats its edge.",
  ["configurations", "histories", "inputs"], "All domain extents, resolutions, prescribed velocities, air patterns and step sequences.",
  TESTS + "they never move the box.",
  ["GridRoutines.c", "Main_DOODZ.c"], [("SetGridCoordinates / PureShearALE", "GridRoutines.c"), ("InterpCentroidsToVerticesDouble / InterpVerticesToCentroidsDouble / ExpandCentroidArray", "GridRoutines.c")],
  [("xg_coord...", "coordinates", "mesh")], ["coordinates and extents"])

p("C23", "Changes computed on the grid reach the markers",
  "After every step each active marker receives the change of temperature, pressure, stress, density, porosity, composition, thermal expansion that the grid computed, interpolated to its position (rock values only, air never contributes), and the grid's grain size. With subgrid relaxation the marker first relaxes towards the old grid value by the fraction of its own relaxation time and the grid hands out exactly the rest. With stress rotation the stress of a marker turns with the vorticity of the material at its position, directors stay unit vectors and turn with the material, porosity and composition stay within zero and one. Inactive markers are untouched.",
  ["inputs", "configurations", "histories"], "All grids, marker positions, grid fields, air patterns, relaxation times and rotation modes.",
  TESTS + "no test looks at a marker value after a step.",
  ["RheologyParticles.c", "ThermalRoutines.c", "ParticleRoutines.c", "Main_DOODZ.c"], [("UpdateParticleStress / UpdateParticlePressure / UpdateParticleEnergy / UpdateParticleDensity / UpdateParticlePhi / UpdateParticleX", "RheologyParticles.c"), ("RotateStresses / RotateDirectorVector", "RheologyParticles.c, AnisotropyRoutines.c"), ("Interp_Grid2P*", "ParticleRoutines.c")],
  [("T, P, sxxd, szzd, sxz, phi, X, rho, d, nx, nz", "marker values", "markers")], ["marker arrays before and after each update"])

p("C24", "The initial and lithostatic pressure is the weight of the overlying rock",
  "In every material cell the lithostatic pressure equals the confining pressure plus the weight per area of the rock in the cells above it and of half the cell itself, for the density field given (or the reference density when asked for); it is zero in the air, uniform for a uniform layer and never decreases downward when gravity points down. Initial pressures of the markers are interpolated from it.",
  ["inputs", "configurations"], "All density fields, gravity values, confining pressures, grids, topographies.",
  TESTS + "gravity is zero in all of them.",
  ["GridRoutines.c", "Main_DOODZ.c"], [("ComputeLithostaticPressure", "GridRoutines.c"), ("initial pressure iterations of RunMDOODZ", "Main_DOODZ.c")],
  [("p_lith, P", "pressure", "mesh, markers")], ["p_lith, marker P after initialisation"])

p("C25", "Chemical diffusion conserves composition and keeps it within bounds",
  "Each step of chemical diffusion solves the implicit balance of every rock cell: the change of its composition over the step equals the exchange with neighbouring rock cells, with held side, bottom, top and surface values and through the bottom. Air cells take no part: no composition passes between rock and air. Hence with closed or periodic sides the total composition of the rock is conserved, no composition leaves the range spanned by the previous field and the held values, and a uniform composition stays uniform. The step starts from the composition carried by the markers, boundary callbacks are asked with the composition of the cell, and marker compositions stay between zero and one.",
  ["inputs", "configurations", "histories"], "All composition fields, diffusivities, time steps, topographies and boundary types.",
  TESTS + "no test switches chemical diffusion on.",
  ["ChemicalRoutines.c", "FreeSurface.c", "Setup.c", "RheologyParticles.c", "Main_DOODZ.c"], [("ChemicalDirectSolve", "ChemicalRoutines.c"), ("SetBCs", "Setup.c"), ("CellFlagging", "FreeSurface.c"), ("UpdateParticleX", "RheologyParticles.c")],
  [("X_n, X0_n, kc_x, kc_z, BCc, BCC_exp", "composition", "mesh")], ["composition field before/after", "marker X"])

p("C26", "A linear step solves the assembled equations or the run stops",
  "Whatever linear solver (lin_solver -1, 1 or 2), preconditioner, diagonal scaling, penalty factor and number of iterations are chosen, the correction that a linear step applies to velocities and pressures solves the equations assembled for the current state - momentum and mass, including the compressibility bet/dt of compressible cells - to the tolerances of the input; a step that cannot do so stops the run instead of handing on a wrong or non-finite state. Well-posed equations are solved, not refused. Only unknowns are corrected. A cell counts as compressible exactly if it is rock and its material is compressible now. Hence solved velocities and pressures do not depend on the solver, its scaling or its penalty (pressures up to a constant in closed incompressible boxes).",
  ["inputs", "configurations"], "All solver options, grids, viscosities, compressibilities, boundary types, free surfaces and states; momentum tolerances are guaranteed for symmetric equations (neither solver tests the momentum at its last iteration).",
  TESTS + "only the standard solver with its default options, and no linear residual is looked at.",
  ["Solvers.c", "StokesRoutines.c", "SparseTools.c"], [("SolveStokesDefectDecoupled", "StokesRoutines.c"), ("KillerSolver", "Solvers.c"), ("KSPStokesDecoupled", "Solvers.c"), ("DirectStokesDecoupledComp", "Solvers.c"), ("DetectCompressibleCells", "StokesRoutines.c")],
  [("A, B, C, D, F, d", "equations", "sparse matrices"), ("u_in, v_in, p_in, comp_cells", "solution", "mesh")], ["velocity and pressure before/after a linear step", "exit status"])

p("C27", "Layered materials follow the transversely isotropic law",
  "With anisotropy on, rock answers a strain rate with the stress of a material whose shear viscosity along the layers is smaller than the normal one by the anisotropy factor: the stress of every cell and vertex is the rotated two-viscosity law for its director, its viscosity and its factor - including the part stored elastically in earlier steps - and is symmetric in the layers' sides; at factor one it is the plain law. Creep, yielding, pressure corrections and works of heating depend on the layers in no way: they equal those of the plain material in the same state. Viscosities stay within the cut-offs of the input and factors between one and the largest of the phases; factors grow with the strain ellipse up to the maximum of the material, are averaged as asked and are equal on joined sides. The Picard operator is the law itself and the Newton operator its derivative, including the volume change of dilating materials. Directors start as unit vectors at the angle of the material (or marker), turned into the local vertical in polar models. Air has no layers, stress or operator, and rock at rest is at rest.",
  ["inputs", "configurations", "histories"], "All directors, factors, phase mixtures, averages, creep and yield parameters, elastic histories, strain rates (zero included), free surfaces and joined sides.",
  TESTS + "anisotropic tests look at the number of iterations of one setup, not at stresses.",
  ["AnisotropyRoutines.c", "StokesRoutines.c", "FD_Jacobian.c", "RheologyDensity.c", "RheologyParticles.c"], [("NonNewtonianViscosityGridAniso / ViscosityConciseAniso / UpdateAnisoFactor / InitialiseDirectorVector", "AnisotropyRoutines.c"), ("EffectiveStrainRate", "RheologyDensity.c"), ("RheologicalOperators", "StokesRoutines.c"), ("DerivativesOnTheFly_n", "FD_Jacobian.c")],
  [("d1, d2, angle, aniso_factor, FS_AR", "layers", "mesh"), ("eta, sxxd, szzd, sxz, D11..D34", "stress and operators", "mesh"), ("nx, nz", "director", "markers")], ["stress, viscosity and operators for a state", "directors after initialisation"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
