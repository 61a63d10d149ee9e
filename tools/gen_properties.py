#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

S = "spectralDNS/"
p("C01", "The parameter store keeps mesh, spacing and physical values consistent",
  "After any sequence of reads, writes, deletions and bulk updates of parameters, by attribute or by key, both ways of access give the same value, the mesh size is two to the power of the last exponents given (or the explicitly given mesh size), grid spacing is domain length over mesh size, and domain lengths given as text with pi are evaluated. Viscosity, time step, Richardson, Prandtl and magnetic diffusivity are handed out in the floating point type of the selected precision, and mesh size and domain length arrays cannot be modified in place.",
  ["histories", "inputs"], "every sequence of store operations up to a depth over a small alphabet of keys and values",
  "The tests only read parameters that were set once at start-up; no test performs a sequence of updates.",
  [S+"config.py"], [("Params attribute/item overrides", S+"config.py: class Params")],
  [("params", "global parameter dictionary", S+"config.py")])
p("C02", "Command line, defaults and solver selection reach the solver unchanged",
  "For every solver on offer, each option takes the value given on the command line, else the value given as a default in advance, else the documented default; the chosen solver is the one returned, and user supplied update, regression and extra callbacks are the ones the run calls. Values outside an option's documented choices are refused, and defaults set for one kind of domain do not leak into another. The files of a run carry the name given for them, else that of the solver.",
  ["configurations", "histories"], "every solver, every option, every order of defaults/command line/re-selection",
  "The tests use a handful of fixed command lines and never check precedence or refusal.",
  [S+"__init__.py", S+"config.py"], [("argparse parsers per domain kind", S+"config.py"), ("get_solver", S+"__init__.py")])
p("C03", "3D Navier-Stokes tendency equals the projected Galerkin tendency",
  "For every real solenoidal velocity field resolved by the mesh, every convection form, dealiasing rule and Nyquist setting, the rate of change computed by the 3D Navier-Stokes solver equals the solenoidal projection of minus the advection term plus viscous diffusion plus the given source, with wavenumbers scaled by the domain lengths. The nonlinear part is free of aliasing for both dealiasing rules (modes cut off by the 2/3-rule take no part in it), does no work on the flow, and the pressure derived from the same evaluation satisfies the Poisson equation.",
  ["inputs", "configurations"], "all velocity fields on a small anisotropic mesh (a quadratic map is decided by all basis states and all pairs of them), all configurations",
  "The tests follow one Taylor-Green flow on cubic meshes, in which many terms vanish by symmetry, and compare one energy number.",
  [S+"solvers/NS.py", S+"maths/cross.py", S+"maths/maths.py"],
  [("convection forms", S+"solvers/NS.py: getConvection"), ("pressure projection and diffusion", S+"solvers/NS.py: add_pressure_diffusion"), ("dealiased spaces", S+"solvers/NS.py: get_context")])
p("C04", "Velocity-vorticity solver evolves exactly the curl of the Navier-Stokes flow",
  "For every zero-mean solenoidal vorticity field the rate of change computed by the velocity-vorticity solver is the curl of the Navier-Stokes tendency of the velocity that has this vorticity and zero mean, plus the given source, for every dealiasing rule and Nyquist setting. The velocity recovered from vorticity is that velocity, and it is solenoidal.",
  ["inputs", "configurations"], "all vorticity fields on a small anisotropic mesh through all basis states and pairs, all configurations",
  "The tests follow one Taylor-Green flow and compare one energy number.",
  [S+"solvers/VV.py", S+"solvers/NS.py"], [("Biot-Savart recovery", S+"solvers/VV.py: compute_velocity"), ("curl of u x w", S+"solvers/VV.py: getConvection")])
p("C05", "MHD tendency equals the incompressible MHD equations",
  "For every pair of solenoidal velocity and magnetic fields the rate of change computed by the MHD solver equals the solenoidal projection of (b.grad)b - (u.grad)u with viscous diffusion for the velocity, and curl(u x b) with magnetic diffusion for the magnetic field. It is alias free under both dealiasing rules, for every Nyquist setting.",
  ["inputs", "configurations"], "all pairs of fields on a small anisotropic mesh through all basis states and pairs, all configurations",
  "The tests follow one flow with one set of parameters and compare two energies.",
  [S+"solvers/MHD.py"], [("Elsasser products", S+"solvers/MHD.py: divergenceConvection"), ("pressure projection", S+"solvers/MHD.py: add_pressure_diffusion")])
p("C06", "2D Navier-Stokes and Boussinesq tendencies equal their equations",
  "For every 2D solenoidal velocity (and density) field, dealiasing rule and Nyquist setting, the rate of change computed by the 2D solvers equals the projected advection plus diffusion; for the Boussinesq solver the density acts through minus Ri times density in the second direction before projection, and density is advected and diffused with viscosity over Prandtl number.",
  ["inputs", "configurations"], "all fields on a small anisotropic 2D mesh through all basis states and pairs, all configurations",
  "The 2D test follows one Taylor-Green flow with an exact solution in which advection vanishes; the Boussinesq solver has no test.",
  [S+"solvers/NS2D.py", S+"solvers/Bq2D.py", S+"solvers/NS.py"], [("2D convection", S+"solvers/NS2D.py, "+S+"solvers/Bq2D.py: getConvection"), ("buoyancy in pressure", S+"solvers/Bq2D.py: add_pressure_diffusion")])
p("C07", "Fixed-step integrators are the schemes they are named after",
  "For every right hand side, forward Euler, second order Adams-Bashforth (first step forward Euler), classical RK4 and fixed-step Bogacki-Shampine 5 advance the solution exactly by their published scheme in every step of every history, including runs that start from a step counter other than zero, step sizes that change between steps, and every optimisation mode. Exactly the stages of the scheme are evaluated, at the published stage states, and the step size is reported unchanged.",
  ["histories", "configurations", "inputs"], "all histories up to a depth of step sizes, with an environment that supplies arbitrary stage slopes (the schemes are linear in them)",
  "The tests run one flow from step zero with a constant step and compare an energy to a few digits.",
  [S+"maths/integrators.py", S+"optimization/cython_integrators.in"], [("getintegrator and step functions", S+"maths/integrators.py")],
  [("previous slope / first-same-as-last ring", "carried between steps", S+"maths/integrators.py: AB2, adaptiveRK")])
p("C08", "Adaptive integrator accepts, rejects and resizes steps correctly",
  "For every sequence of error estimates the adaptive integrator commits a step only if its normalised error estimate is at most one, retries a rejected step from the unchanged state with a smaller step, and leaves no trace of rejected attempts in the committed state, which equals the fifth order scheme at the step size reported as taken. The proposed next step is the tried step times 0.8 est^(-1/5), limited to the range 0.01 to 2 (no growth after a rejection), and rejections are announced to the user callback with the step that was rejected.",
  ["histories", "fault_sequences"], "all accept/reject sequences up to a depth, over an alphabet of error magnitudes and components",
  "One adaptive test run hardly ever rejects, and nothing checks the controller.",
  [S+"maths/integrators.py"], [("adaptiveRK loop", S+"maths/integrators.py: adaptiveRK")],
  [("stage ring and offset", "slopes kept for first-same-as-last reuse", S+"maths/integrators.py: adaptiveRK")])
p("C09", "The time loop keeps time, step counter, callbacks and end time right",
  "In every run the time advances by exactly the step taken, the step counter by one per step, the user update is called once after each step with the current time and counter (followed by one offer to the output files), the end-of-run callback once, and the initial step size is restored. Periodic solvers land exactly on the end time (if the first step fits), no solver goes beyond the end time, and a run split into several consecutive runs makes the same steps.",
  ["histories", "inputs"], "all combinations of start time, end time, step size and adaptive step sequences over small alphabets, including end times that are no multiple of the step",
  "The tests use end times that are multiples of the step and check only fields at the end.",
  [S+"__init__.py", S+"solvers/NS.py", S+"solvers/spectralinit.py"], [("solve loop", S+"__init__.py: solve"), ("end_of_tstep", S+"solvers/NS.py")],
  [("t, tstep, dt", "time bookkeeping", S+"config.py params")])
p("C10", "A run restarted from a checkpoint equals the uninterrupted run",
  "For every solver, restarting from the checkpoint written at any step, with the stored fields, time and step counter, and continuing gives the same fields as the run that was never interrupted, for every one-step integrator and for the channel solvers with their stored previous step. This holds also when the restart uses a different number of processes.",
  ["crash_points", "histories", "configurations"], "every checkpoint step of a run, every solver, several process counts",
  "No test restarts a run.",
  [S+"h5io/HDF5File.py", S+"solvers/"], [("checkpoint data sets per solver", S+"solvers/*.py: get_context"), ("HDF5File.update", S+"h5io/HDF5File.py")])
p("C11", "Result and checkpoint files hold the right data at the right steps",
  "For every output interval and history, the result file holds exactly the steps that are multiples of the result interval, each with the physical fields of that step, and the checkpoint file holds the spectral fields, time and counter of the latest multiple of the checkpoint interval; appending keeps what an existing checkpoint recorded until the next one is written. When the stop file appears, the run checkpoints the current step at the end of that step, removes the file and exits with an error status; writing output never alters the solution.",
  ["histories", "crash_points", "configurations"], "all pairs of intervals, all steps at which the stop file appears or the run ends, all solvers",
  "One test reads one file of one run; no test uses the stop file or checks the checkpoint.",
  [S+"h5io/HDF5File.py", S+"solvers/"], [("HDF5File.update", S+"h5io/HDF5File.py"), ("update_components per solver", S+"solvers/*.py")])
p("C12", "Results do not depend on the number of processes or the decomposition",
  "For every solver, running on one, two or four processes with slab or pencil decomposition gives the same global fields, time steps (including adaptive ones), integrals, pressure and files as the serial run up to rounding. Neither do they depend on the number of threads or the planning effort of the Fourier transforms.",
  ["schedules", "configurations"], "every solver and output path, process counts 1, 2 and 4, both decompositions, thread counts and planning efforts",
  "The parallel tests check global energies on each layout against loose tolerances, for few solvers and outputs.",
  [S+"solvers/", S+"maths/integrators.py", S+"utilities/__init__.py", S+"h5io/HDF5File.py"], [("distributed spaces", S+"solvers/*.py: get_context"), ("collective error norm", S+"maths/integrators.py"), ("collective integral", S+"utilities/__init__.py: dx")])
p("C13", "Every optimised kernel computes what the plain implementation computes",
  "For every optimisation mode, precision and dimension, each optimised kernel (cross products, projection with diffusion, linear terms, velocity recovery, time steps) gives on every input the result of the plain implementation to the rounding of its precision, modifies the same arguments and no others, and returns the same objects. Whole solver steps are therefore identical for every optimisation mode.",
  ["inputs", "configurations"], "all basis inputs and pairs of arguments of each kernel (they are linear or bilinear), all modes, precisions, dimensions and anisotropic array shapes",
  "The tests run a few solver/mode pairs in double precision on cubic meshes and compare energies.",
  [S+"optimization/", S+"maths/cross.py", S+"solvers/"], [("optimizer dispatch", S+"optimization/__init__.py"), ("kernels", S+"optimization/*.in, numba_module.py, pythran_maths.py")])
p("C14", "Compiled Shen-basis matrix products and coefficients equal the dense matrices",
  "For every vector along every axis and both quadratures, the Helmholtz and biharmonic coefficient operators and the compiled Chebyshev derivative product give the product of the dense Galerkin matrices with that vector (with the given coefficients per wavenumber), leave their input unchanged and overwrite all of their output.",
  ["inputs", "configurations"], "all basis vectors, all axes, several sizes (odd and even), both quadratures, real and complex data, constant and varying coefficients",
  "The tests apply each operator to random data on one axis and one or two sizes.",
  [S+"shen/LUsolve.pyx", S+"shen/Matrices.py"], [("matvec kernels", S+"shen/LUsolve.pyx"), ("HelmholtzCoeff, BiharmonicCoeff", S+"shen/Matrices.py")])
p("C15", "The channel volume integral is exact for every resolved field",
  "For every field that is a polynomial in the wall-normal direction within the exactness of the quadrature times resolved Fourier modes, the volume integral used for energies and fluxes equals the exact integral over the domain on the first process, for both Chebyshev quadratures and Legendre, any wall-normal axis, any domain lengths and process counts, and leaves its argument unchanged.",
  ["inputs", "configurations"], "all basis fields on small meshes, all quadratures, axes and decompositions",
  "One test integrates a single function on one mesh.",
  [S+"utilities/__init__.py"], [("dx", S+"utilities/__init__.py")])
p("C16", "Crank-Nicolson/Adams-Bashforth channel step solves its discrete equations",
  "For every resolved no-slip solenoidal state, previous convection, streamwise pressure gradient and both quadratures, one step of the two Kim-Moin-Moser solvers and the coupled solver satisfies the Galerkin form of the Navier-Stokes equations with Crank-Nicolson diffusion and second order Adams-Bashforth convection, for every Fourier mode including the mean flow. The new velocity is solenoidal and vanishes at the walls.",
  ["inputs", "histories", "configurations"], "all basis states and pairs of them on a small mesh, all sequences of a few steps, both quadratures",
  "The tests follow one small Orr-Sommerfeld eigenmode on one mesh and compare one energy.",
  [S+"solvers/KMM.py", S+"solvers/KMMr.py", S+"solvers/Coupled.py"], [("rhs assembly", S+"solvers/KMM.py: ComputeRHS"), ("linear solves and mean flow", S+"solvers/KMM.py: solve_linear")],
  [("previous convection", "Adams-Bashforth memory", S+"solvers/KMM.py context")])
p("C17", "Semi-implicit Runge-Kutta channel step solves its discrete equations",
  "For every resolved no-slip solenoidal state and pressure gradient, one step of the Runge-Kutta channel solvers equals three stages with Crank-Nicolson diffusion and explicit convection with the coefficients 8/15, 5/12, 3/4 and 0, -17/60, -5/12 in Galerkin form, for every Fourier mode including the mean flow, whatever was computed before. The new velocity is solenoidal and vanishes at the walls.",
  ["inputs", "histories", "configurations"], "all basis states and pairs of them on a small mesh, sequences of steps, both quadratures",
  "The tests follow one small Orr-Sommerfeld eigenmode on one mesh and compare one energy.",
  [S+"solvers/KMMRK3.py", S+"solvers/CoupledRK3.py"], [("stages", S+"solvers/KMMRK3.py: integrate"), ("memory of previous stage", S+"solvers/KMMRK3.py: ComputeRHS")])
p("C18", "All channel solvers and convection forms describe the same flow",
  "For every resolved solenoidal no-slip state the standard, divergence, skew-symmetric and rotational convection forms of a channel solver lead to the same new velocity whenever all products are resolved, and solvers with the same time discretisation (wall along the first or the last axis, pressure eliminated or coupled) produce the same velocity.",
  ["inputs", "configurations"], "all pairs of basis states, all solvers, all convection forms, several steps",
  "No test compares two channel solvers or two convection forms, and only one form is ever run.",
  [S+"solvers/KMM.py", S+"solvers/KMMr.py", S+"solvers/KMMRK3.py", S+"solvers/Coupled.py", S+"solvers/CoupledRK3.py"], [("getConvection", S+"solvers/*.py")])
p("C19", "Rayleigh-Benard solvers couple temperature and flow correctly",
  "For every resolved temperature and velocity state the wall temperatures stay at one and zero, the conduction profile at rest is a steady state, temperature is advected by the flow with explicit convection and diffused implicitly with the given diffusivity, and buoyancy accelerates the wall-normal velocity by the temperature. The flow part is otherwise that of the corresponding channel solver.",
  ["inputs", "histories"], "all basis temperature states and pairs with velocity basis states on a small mesh, several steps",
  "No test runs a Rayleigh-Benard solver.",
  [S+"solvers/KMM_RB.py", S+"solvers/KMMRK3_RB.py"], [("temperature equation", S+"solvers/KMM_RB.py, KMMRK3_RB.py: ComputeRHS, solve_linear")])
p("C20", "Derived quantities are correct and reading them never changes the run",
  "For every solver and every state, velocity, vorticity, divergence, velocity gradients and convection obtained from a context are those of the current spectral solution, the pressure of the periodic solvers is that of the flow the tendency was last evaluated for, the wall-normal pressure gradient of the channel solvers balances the momentum equation of the last step, and setting a velocity makes it the current one. Asking for any of them, in any order and any number of times between steps, changes no later step of the simulation and no other derived quantity.",
  ["histories", "inputs"], "all sequences of queries and steps up to a depth, every solver, all basis states",
  "The tests call one or two queries at the end of a run.",
  [S+"solvers/"], [("get_* functions", S+"solvers/*.py")], [("work arrays", "shared scratch memory", "context work arrays")])
p("C21", "A simulation does not depend on what ran earlier in the same process",
  "Steps of one context depend only on its own fields and the parameters: interleaving steps of several contexts of a solver in any order, creating a new context, or having run other flows before gives each of them the same fields as running alone in a fresh process, and stages of scratch memory never leak into a result. Consecutive runs that continue each other equal one long run for one-step integrators and for the channel solvers.",
  ["histories", "schedules"], "all interleavings of a few steps of two contexts, all split points, every solver",
  "Every test builds one context and runs it once.",
  [S+"solvers/", S+"maths/integrators.py", S+"__init__.py"], [("context dictionary and work arrays", S+"solvers/*.py: get_context")])
p("C22", "The C++ and the compact Python solvers reproduce the reference flow",
  "The stand-alone C++ solver and the compact single-file Python solver give the same kinetic energy for the Taylor-Green flow as the main Navier-Stokes solver with the same mesh, time step and viscosity, on any number of processes they accept.",
  ["configurations", "schedules"], "mesh sizes, step counts and process counts over small ranges",
  "The stand-alone solvers are not run by the tests.",
  ["cpp/spectralDNS.cpp", "spectralDNS3D_short.py"], [("independent implementations", "cpp/spectralDNS.cpp, spectralDNS3D_short.py")])
p("C23", "Reported timings bound every time step of every process",
  "For every sequence of step durations the reported fastest and slowest step times are the minimum and maximum of the steps made, and the final report gives the minimum and maximum of these over all processes; the total covers the whole run.",
  ["histories", "schedules"], "all duration sequences over a small alphabet, several processes with all assignments of durations",
  "No test checks timings.",
  [S+"utilities/__init__.py"], [("Timer", S+"utilities/__init__.py")])
p("C24", "Every step of every solver keeps the velocity solenoidal and real",
  "From every solenoidal start, each step of every periodic and channel solver with every integrator, convection form and dealiasing rule leaves velocity (and magnetic field) solenoidal to rounding, keeps the spectral data that of real fields, and, with the Nyquist modes masked, keeps those modes empty and the spatial mean of the periodic flow unchanged without forcing. Unmasked Nyquist modes have no definite derivative on the grid and are left out. The projection helper turns any field into its solenoidal part and leaves solenoidal fields unchanged.",
  ["histories", "configurations", "inputs"], "all configurations of solver, integrator, convection and dealiasing, several steps from a state exciting every resolved mode; all basis fields for the projection",
  "The tests do not look at the divergence of the computed fields.",
  [S+"solvers/", S+"maths/maths.py"], [("pressure projection", S+"solvers/*.py"), ("project", S+"maths/maths.py")])
p("C25", "Profiling observes the run and reports it correctly on all processes",
  "Switching profiling on changes no result of any solver and the run ends on any number of processes. For every profile, whatever each process executed, the report gives for each listed function that ran, and only for those, the smallest and largest own and cumulative times over the processes that executed it. The report of a run covers that run and nothing from earlier runs in the same program.",
  ["histories", "schedules", "configurations"], "all forests of nested calls up to a size, all their assignments to up to three or four processes, every solver with profiling on and off, sequences of runs",
  "The tests run the profiler once, on one process, and never look at its report.",
  [S+"utilities/create_profile.py", S+"utilities/__init__.py", S+"__init__.py"], [("create_profile", S+"utilities/create_profile.py"), ("make_profile", S+"__init__.py: solve")])
p("C26", "Demos keep statistics, forcing, spectra and restarts right on any process count",
  "For every sequence of sampling, writing, resetting and reloading, the statistics of the channel and convection demos equal the plane averages of exactly the sampled fields, in the file and returned, on any number of processes. The isotropic demo starts solenoidal at its target energy, its forcing scales only the low modes and restores that energy exactly after every step, and its spectrum does not depend on the processes. The channel demo restores its flux exactly. Restarts through the demos' own init_from_file continue the interrupted run. Every demo runs to the end with its solvers, agrees with its exact solution where it has one, and computes the same state and prints the same numbers on any number of processes.",
  ["histories", "crash points", "configurations"], "all sequences of statistics operations up to a depth, all interruption points of short runs, all demos with each of their solvers, 1, 2 and 4 processes",
  "The tests do not run the demos at all.",
  ["demo/MKM.py", "demo/RayleighBenard.py", "demo/Isotropic.py", "demo/LaminarChannel.py", "demo/OrrSommerfeld.py", "demo/TG.py", "demo/Vortices.py"],
  [("Stats", "demo/MKM.py: Stats"), ("forcing", "demo/Isotropic.py: update"), ("restart", "demo/RayleighBenard.py: init_from_file")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
