T.update({
 "C05": ("spec/TimeStep", "the real step selection driven over generated velocity/surface/chemical limits, plus whole runs with sub-stepping, validated by TimeStep_Trace"),
 "C06": ("spec/Nonlinear", "residual histories generated by TLC are imposed on the real loop of whole runs, and real runs are recorded; both validated by Nonlinear_Trace"),
 "C07": ("spec/LineSearch", "residual landscapes imposed on the real search and the searches of whole runs, validated by LineSearch_Trace"),
 "C08": ("spec/Boundary", "generated set-up tables, stock conditions and ghost updates on the real grid code, and solved fields of whole runs, validated by Boundary_Trace"),
 "C09": ("spec/Numbering", "generated type patterns numbered and corrected by the real code, and every correction of whole runs, validated by Numbering_Trace"),
 "C10": ("spec/Balance", "real strain rates, body forces, residuals, norms and assembled matrices on integer fields, and solved states of whole runs, validated by Balance_Trace"),
 "C12": ("spec/Advection", "generated velocity grids and markers moved by the real Runge-Kutta scheme, and every marker of every sub-step of whole runs, validated by Advection_Trace"),
 "C13": ("spec/Population", "generated marker clouds, surfaces, capacities and inflow motions through the real reseeding and inflow routines (address-sanitised), and every reseeding and inflow of whole runs, validated by Population_Trace"),
 "C14": ("spec/Transfer", "generated marker clouds averaged by the real transfer routine in every mode, stencil and node set, and the grid fields of whole runs, validated by Transfer_Trace"),
 "C15": ("spec/Cloud", "real initial clouds for generated grids, surfaces and set-up callbacks (address-sanitised), and the initialisation of whole runs, validated by Cloud_Trace"),
 "C16": ("spec/Flagging", "generated topographies flagged and weighed by the real code (address-sanitised), and the flags, equations and viscosities of every step of whole free-surface runs, validated by Flagging_Trace"),
 "C17": ("spec/Topography", "generated surface-marker chains, heights and surface-process settings through the real routines (address-sanitised), and every surface operation of whole runs, validated by Topography_Trace"),
 "C18": ("spec/Thermal", "generated conduction problems solved by the real energy solver (address-sanitised), and every thermal step of whole runs, validated by Thermal_Trace"),
 "C19": ("spec/History", "generated marker histories, strain rates, velocity fields and phase-change tables through the real routines (address-sanitised), and every history update of whole runs, validated by History_Trace"),
 "C03": ("spec/Restart", "every carried quantity of whole runs resumed from a restart file compared step by step with the uninterrupted run, and their output files, by Restart_Trace"),
 "C22": ("spec/Grid", "generated boxes, wall motions and centre/vertex transfers through the real grid routines (address-sanitised), and the coordinates of whole runs with moving boxes, validated by Grid_Trace"),
 "C24": ("spec/Grid", "generated density fields, surfaces and gravities through the real pressure routine (address-sanitised), and the pressures of whole runs, validated by Grid_Trace"),
 "C23": ("spec/Update", "generated grid changes handed to markers by the real update, rotation and relaxation routines (address-sanitised), and every marker update of whole runs, validated by Update_Trace"),
})
T["C21"] = ("spec/Output", "every dataset, header, picture and time series of the files written by whole runs under many switches and characteristic scales compared bit by bit with the recorded model state by Output_Trace")
T["C20"] = ("spec/Constitutive", "generated material states (strength, melt, density tables, moduli, creep and yield of single phases and mixtures) through the real routines (address-sanitised), and the material state of every step of whole runs, validated by Constitutive_Trace")
T["C01"] = ("spec/Input", "generated input files (values, defaults, order, layout, scales, contradictions, every flow law) read by the real input reader, the configuration it returns validated by Input_Trace")
T["C11"] = ("spec/Parallel", "whole runs and the unit cases of the other checks in a parallel build on a recording run time that controls the number of threads, their order and preemption: every quantity compared with the single-thread run and every memory access of every parallel phase judged by Parallel_Trace")
T["C25"] = ("spec/Chemical", "generated diffusion problems solved by the real chemical solver (address-sanitised), and every chemical step of whole runs, validated by Chemical_Trace")
T["C26"] = ("spec/LinearSolver", "generated linear systems, assembled and solved by the real routines with every solver and option (address-sanitised): the correction is multiplied with the assembled rows in exact limb arithmetic by LinearSolver_Trace, as are compressible-cell histories and whole runs under all solvers")
T["C27"] = ("spec/Anisotropy", "generated grids of layered cells and vertices put through the real routines (address-sanitised): stresses, factors, viscosities and operators judged by Anisotropy_Trace in exact arithmetic; layered against plain creep and yielding; Newton operators against differences of recorded stresses; recorded states of whole layered runs")
NA = {}
