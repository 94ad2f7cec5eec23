#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


prop("C01", "Density and smoothing length equal the kernel sum over all neighbours",
     "After setup and after every step, each active hydro particle's density and smoothing length are the self-consistent solution of the kernel summation over every particle and every periodic or mirror image inside its kernel support (h = h_fac (m/rho)^(1/ndim) for SPH, h = h_fac n^(-1/ndim) for the meshless schemes), together with the derived correction factors. "
     "The result does not depend on the neighbour-search structure, on the leaf size, on the kernel-table option, on multiple time-step levels or on tree re-stocking intervals.",
     ["inputs", "configurations", "histories"],
     "all particle distributions (uniform, clustered, anisotropic, lattice), 1-3 dimensions, all kernels, brute force/KD/oct trees, leaf sizes, open/periodic/mirror walls in any mixture, SPH and both meshless schemes, any number of steps",
     "The tests look at a handful of smooth problems through loose global norms; a missed or doubled neighbour in some geometry does not show. The exact O(N^2) sum over explicit images is checked for every particle.",
     ["src/GradhSph/GradhSph.cpp", "src/MeshlessFV/MfvCommon.cpp", "src/Tree/HydroTree.cpp", "src/Tree/Tree.cpp", "src/GradhSph/GradhSphTree.cpp", "src/MeshlessFV/MeshlessFVTree.cpp", "src/Headers/NeighbourManager.h"],
     [("GradhSph::ComputeH / MfvCommon::ComputeH", "src/GradhSph/GradhSph.cpp, src/MeshlessFV/MfvCommon.cpp"),
      ("UpdateAllSphProperties / UpdateAllProperties gather search", "src/GradhSph/GradhSphTree.cpp, src/MeshlessFV/MeshlessFVTree.cpp"),
      ("ComputeGatherNeighbourList, ghost creation", "src/Tree/Tree.cpp, src/Hydrodynamics/Ghosts.cpp")],
     ["particle arrays at the end of each step"])

prop("C02", "SPH hydro forces equal the pairwise SPH equations and balance",
     "The hydrodynamic acceleration, heating rate and velocity divergence of every active SPH particle equal the direct pairwise sum of the grad-h SPH equations (pressure, artificial viscosity in every mode, artificial conductivity, time-dependent viscosity switch) over all interacting particles and images, whichever neighbour search is used. "
     "Hence with all particles active and no walls, total hydro force vanishes, torques cancel and mechanical work equals minus the heating rate to rounding.",
     ["inputs", "configurations"],
     "all particle distributions and velocity fields, 1-3 dimensions, kernels, viscosity and conductivity modes, equations of state, boundary types, tree types",
     "The tests run two shock/sound-wave problems with default viscosity and loose norms; the other options, tree paths and the scatter neighbours are never compared with the equations.",
     ["src/GradhSph/GradhSph.cpp", "src/GradhSph/GradhSphTree.cpp", "src/Hydrodynamics/Sph.cpp", "src/Headers/NeighbourManager.h", "src/Tree/Tree.cpp"],
     [("GradhSph::ComputeSphHydroForces / ComputeSphHydroGravForces", "src/GradhSph/GradhSph.cpp"), ("ComputeNeighbourAndGhostList", "src/Tree/Tree.cpp"),
      ("NeighbourManager::EndSearch", "src/Headers/NeighbourManager.h")],
     ["accelerations and du/dt after setup and after steps"])

prop("C03", "Self-gravity equals the direct softened sum within the opening criterion",
     "For self-gravitating gas (SPH and meshless) and gas-star mixtures, the gravitational acceleration and potential of every particle equal the direct sum of kernel-softened pair interactions, exactly for brute force and for a tree with vanishing opening angle, and with an error that is bounded and shrinks with the opening criterion (all criteria and multipole orders) otherwise. "
     "Pair forces are equal and opposite, so total momentum change vanishes up to that error.",
     ["inputs", "configurations"],
     "particle distributions with any density contrast, 1-3 dimensions, brute force/KD/oct tree, monopole/quadrupole/fast variants, geometric/gadget2/eigenmac criteria, with and without stars, opening angles",
     "Existing gravity tests use one configuration and a global tolerance; a cell that is wrongly accepted, an unfinished leaf or a missing particle for some geometry escapes.",
     ["src/GradhSph/GradhSph.cpp", "src/GradhSph/GradhSphTree.cpp", "src/MeshlessFV/MeshlessFVTree.cpp", "src/Headers/NeighbourSearch.h", "src/Tree/Tree.cpp", "src/Hydrodynamics/SphSimulation.cpp"],
     [("ComputeGravityInteractionAndGhostList", "src/Tree/Tree.cpp"), ("ComputeCellMonopoleForces/QuadrupoleForces/Fast*", "src/Headers/NeighbourSearch.h"),
      ("ComputeSphHydroGravForces, ComputeSphGravForces, ComputeDirectGravForces, ComputeStarGravForces", "src/GradhSph/GradhSph.cpp")],
     ["gravitational part of accelerations and potentials"])

prop("C04", "Every tree is a faithful partition with enclosing cells",
     "At every time the search tree holds each live particle in exactly one leaf, leaf occupancy respects the configured limit where positions can be separated, and every cell's bounding box, smoothing-length box, velocity bounds, mass, centre of mass, maximum smoothing length, quadrupole and active count enclose or equal those of exactly the particles below it. "
     "This holds after a build, after any number of re-stocks (and to the order of the extrapolation where cells are only extrapolated between them), and for the ghost tree.",
     ["inputs", "histories", "configurations"],
     "any particle distribution including coincident coordinates and strong clustering, 1-3 dimensions, KD/oct tree, leaf sizes, rebuild/re-stock intervals, steps with multiple time-step levels",
     "Tests never look inside a tree; a cell that is slightly too small only loses an occasional neighbour.",
     ["src/Tree/KDTree.cpp", "src/Tree/OctTree.cpp", "src/Tree/BruteForceTree.cpp", "src/Tree/HydroTree.cpp", "src/Tree/Tree.cpp"],
     [("BuildTree/DivideTreeCell/StockTree/ExtrapolateCellProperties/UpdateHmaxValues/UpdateActiveParticleCounters", "src/Tree/KDTree.cpp, src/Tree/OctTree.cpp")],
     ["cell arrays and leaf particle lists after each step"])

prop("C05", "Boundaries confine particles and image particles mirror their source",
     "Particles always stay inside periodic and mirror boundaries (wrapping or reflecting with the correct velocity change), mass and particle identity are preserved by the wrap, and the ghost copies present after each step are exact images of their sources. "
     "Physics in a periodic box is invariant to translating all particles by any vector modulo the box, and a mirror wall gives the same evolution as explicitly simulating the mirrored half.",
     ["inputs", "histories", "configurations"],
     "all boundary mixtures per dimension and side, 1-3 dimensions, SPH and meshless, particles crossing walls repeatedly, velocities larger than box crossing times",
     "Tests use at most one boundary type per problem and compare smooth profiles.",
     ["src/Hydrodynamics/Ghosts.cpp", "src/Headers/DomainBox.h", "src/Headers/Ghosts.h", "src/Headers/GhostNeighbours.hpp", "src/Hydrodynamics/SphSimulation.cpp", "src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/MeshlessFV/MeshlessFV.cpp"],
     [("CheckBoundaries", "src/Integration, src/MeshlessFV"), ("SearchBoundaryGhostParticles, CopyHydroDataToGhosts, GhostNeighbourFinder", "src/Hydrodynamics/Ghosts.cpp, src/Headers/GhostNeighbours.hpp")],
     ["particle positions/velocities and ghosts after every step; paired runs"])

prop("C06", "Block time steps stay synchronised and respect every particle's step",
     "In a simulation with hierarchical time steps the integer clock advances so that every particle and star begins and ends its own power-of-two step only at multiples of that step, all particles are synchronised at each resynchronisation, simulation time equals the sum of the elementary steps, and no particle's step exceeds the time-step it was assigned or 2^level below the maximum. "
     "Neighbouring particles never differ by more levels than configured where the limiter is enabled.",
     ["histories", "configurations", "inputs"],
     "any number of levels, level-difference limits, SPH and meshless and N-body runs, single-timestep option, star/sink coupling; histories with growing and shrinking level ranges",
     "Tests only run with default levels and look at final states; the clock bookkeeping is exercised without being observed.",
     ["src/Hydrodynamics/SphSimulation.cpp", "src/MeshlessFV/MeshlessFVSimulation.cpp", "src/Nbody/NbodySimulation.cpp", "src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/GradhSph/GradhSph.cpp"],
     [("ComputeBlockTimesteps / ComputeGlobalTimestep", "src/Common/Simulation.cpp"), ("CheckTimesteps, EndTimestep", "src/Integration"), ("levelneib propagation", "src/GradhSph/GradhSphTree.cpp")],
     ["n, nresync, level, nstep, nlast, dt per particle after every step"])

prop("C07", "SPH evolution conserves mass, momentum, angular momentum and energy",
     "Over any adiabatic SPH run without dissipative sinks or walls, mass is conserved exactly, linear and angular momentum to rounding when all particles share a step (and to the small truncation error of the hierarchy otherwise), and total energy to an error that shrinks with the time-step. "
     "Particle identities are never lost or duplicated.",
     ["histories", "inputs", "configurations"],
     "initial conditions with random velocities and clustering, with/without self-gravity, both leapfrog schemes, energy integration on/off, tree options, 1-3 dimensions, block/global steps",
     "Only single smooth problems with fixed end time are tested; conservation for arbitrary histories is not.",
     ["src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/Hydrodynamics/EnergyEquation.cpp", "src/GradhSph/GradhSph.cpp", "src/Hydrodynamics/SphSimulation.cpp"],
     [("AdvanceParticles/CorrectionTerms/EndTimestep", "src/Integration"), ("energy integration", "src/Thermal")],
     ["sums over particles after each step"])

prop("C08", "Meshless schemes conserve mass, momentum and energy and stay positive",
     "In the finite-volume meshless schemes (moving or static particles, mass-carrying or mass-exchanging) every flux leaving a particle enters its partner, so total mass, momentum and energy are conserved to rounding at each resynchronisation in open and periodic boxes without gravity, for every Riemann solver, limiter and integrator. "
     "Densities, pressures and masses remain positive, and primitive variables always agree with the stored conserved ones.",
     ["histories", "inputs", "configurations"],
     "MUSCL-Hancock and Runge-Kutta schemes, all slope limiters, exact/HLLC solvers, zero-mass-flux option, static particles, 1-3 dimensions, block time steps with several levels",
     "The tests check final profiles against tolerance of per cent level; a flux lost between time-step levels is far below that.",
     ["src/MeshlessFV/MfvMuscl.cpp", "src/MeshlessFV/MfvRungeKutta.cpp", "src/MeshlessFV/MfvCommon.cpp", "src/MeshlessFV/MeshlessFV.cpp", "src/MeshlessFV/MeshlessFVTree.cpp", "src/MeshlessFV/MfvIntegration.cpp"],
     [("ComputeGodunovFlux", "src/MeshlessFV/MfvMuscl.cpp, src/MeshlessFV/MfvRungeKutta.cpp"), ("UpdateAllGodunovFluxes", "src/MeshlessFV/MeshlessFVTree.cpp"), ("IntegrateParticles/EndTimestep", "src/MeshlessFV")],
     ["conserved sums and primitive/conserved pairs after each step"])

prop("C09", "Riemann solvers and slope limiters satisfy their defining relations",
     "Every Riemann solver is consistent (equal states give the physical flux), mirror symmetric, rotation and Galilean covariant, and the exact solver reproduces the exact solution of any Riemann problem, including states that open a vacuum; approximate solvers converge to it for weak jumps and resolve isolated contacts. With zero mass flux the face moves with the contact. "
     "Slope limiters return coefficients in [0,1] that keep reconstructed values within the bounds they promise.",
     ["inputs"],
     "left/right states over many decades of density and pressure, strong shocks, near-vacuum, supersonic flows, equal states, all interface orientations, gas gammas, 1-3 dimensions",
     "Tests only reach the solver through one shock tube.",
     ["src/Hydrodynamics/RiemannSolver.cpp", "src/Headers/RiemannSolver.h", "src/Headers/SlopeLimiter.h"],
     [("ExactRiemannSolver::SolveRiemannProblem/ComputeFluxes", "src/Hydrodynamics"), ("HllcRiemannSolver::ComputeFluxes", "src/Hydrodynamics"), ("SlopeLimiter::CellLimiter", "src/Headers/SlopeLimiter.h")],
     ["direct calls of the solver and limiter objects"])

prop("C10", "N-body forces, jerks and time integration are correct",
     "Star accelerations, jerks and potentials equal the direct pairwise (optionally softened) sums for every integrator, total momentum is conserved to rounding with common steps, and the integrators converge at their formal order with energy and angular-momentum errors that vanish accordingly. "
     "Block steps do not change the physics beyond their truncation error, and identities and masses of stars never change.",
     ["inputs", "histories", "configurations"],
     "2 to hundreds of stars with arbitrary mass ratios and separations, all integrators (leapfrog KDK/DKD, Hermite 4, time-symmetric Hermite with iterations, Hermite 6), softened or not, block or global steps, 1-3 dimensions",
     "Existing tests follow one Plummer sphere and one two-body style case with loose tolerance.",
     ["src/Nbody/Nbody.cpp", "src/Nbody/NbodyHermite4.cpp", "src/Nbody/NbodyHermite4TS.cpp", "src/Nbody/NbodyHermite6TS.cpp", "src/Nbody/NbodyLeapfrogKDK.cpp", "src/Nbody/NbodyLeapfrogDKD.cpp", "src/Nbody/NbodySimulation.cpp"],
     [("CalculateDirectGravForces", "src/Nbody"), ("AdvanceParticles/CorrectionTerms/EndTimestep", "src/Nbody")],
     ["star arrays after setup and at each step; convergence of repeated runs"])

prop("C11", "Sub-systems of stars evolve as the full direct integration would",
     "With sub-systems enabled the multiple systems partition the stars (every star in exactly one system), each system's mass, centre of mass and motion equal those of its components, and the evolved stars agree with the direct integration of the same stars within the integration tolerance. "
     "Reported binary elements are the Kepler elements of the two components, and perturber lists and hierarchy use the correct distances.",
     ["inputs", "histories", "configurations"],
     "clusters with tight binaries, triples and higher multiples, all integrators for parent and sub-systems, perturbers on and off, over many rebuilds of the tree",
     "The existing tests do not run sub-systems or only one binary.",
     ["src/Nbody/NbodySystemTree.cpp", "src/Nbody/Nbody.cpp", "src/Headers/NbodySystemTree.h", "src/Headers/BinaryOrbit.h"],
     [("CreateNbodySystemTree/BuildSubSystems/FindBinarySystems", "src/Nbody/NbodySystemTree.cpp"), ("IntegrateInternalMotion", "src/Nbody")],
     ["star arrays and binary list at resynchronisation"])

prop("C12", "Sink creation and accretion conserve mass, momentum and spin",
     "Creating a sink and accreting gas onto sinks moves mass, momentum and angular momentum (orbital plus recorded spin) from gas to sink without loss or gain, never touches gas outside the accretion region or assigned to another sink, and leaves no accreted particle taking part in later physics. "
     "Sinks are only created from gas satisfying the enabled density, potential-minimum and overlap criteria.",
     ["histories", "inputs", "configurations"],
     "collapsing clouds with one or many sinks, pre-existing sinks, smooth and instantaneous accretion, SPH and meshless, criteria on and off, block time steps",
     "Only one sink-formation test exists in the repository and is not among the reliable ones.",
     ["src/Nbody/Sinks.cpp", "src/Headers/Sinks.h", "src/Hydrodynamics/SphSimulation.cpp", "src/Hydrodynamics/Hydrodynamics.cpp"],
     [("SearchForNewSinkParticles, CreateNewSinkParticle, AccreteMassToSinks", "src/Nbody/Sinks.cpp"), ("DeleteDeadParticles", "src/Hydrodynamics")],
     ["gas, star and sink tables before/after each step"])

prop("C13", "Snapshots written and read back reproduce the state",
     "Writing a snapshot in any supported format and reading it back (same or other output units) yields the same time, particle counts, types, identifiers, positions, velocities, masses, smoothing lengths, densities, energies, stars and sinks to the format's precision, without dead particles, in a well-formed file. "
     "Header-only reads agree with the file.",
     ["inputs", "configurations", "histories"],
     "column, su and sf formats, 1-3 dimensions, with/without gas, stars, sinks, dust/cdm/icm particle types, any unit system, dead particles present",
     "Only the formats of the shipped examples are written, and nothing reads them back field by field.",
     ["src/Common/SimulationIO.hpp", "src/Headers/BinaryIO.h", "src/Headers/BinaryIO.h", "src/Common/SphSnapshot.cpp"],
     [("WriteSnapshotFile/ReadSnapshotFile and per-format variants", "src/Common/SimulationIO.hpp"), ("ConvertToCodeUnits", "src/Common/Simulation.cpp")],
     ["arrays before write vs after read in a fresh process, independent parser of the file"])

prop("C14", "A restarted run continues the interrupted one",
     "Stopping a run at any snapshot and restarting from it resumes at the same time, snapshot number and output schedule and evolves to the same state as the uninterrupted run, up to the re-initialisation of the time-step hierarchy. "
     "An interrupted or repeated restart neither skips nor overwrites existing snapshots.",
     ["crash_points", "histories", "configurations"],
     "any stop point on or between snapshots, all snapshot formats that support restart, SPH, meshless, N-body with and without sinks, dimensional and dimensionless runs",
     "No test restarts a run.",
     ["src/Common/Simulation.cpp", "src/Common/SimulationIO.hpp", "src/Common/gandalf.cpp", "src/Hydrodynamics/SphSimulation.cpp", "src/MeshlessFV/MeshlessFVSimulation.cpp"],
     [("RestartSnapshot, ReadSnapshotFile, PostInitialConditionsSetup with restart", "src/Common")],
     ["state of restarted vs uninterrupted run, list of files on disk"])

prop("C15", "Every requested output is produced exactly once at its time",
     "A run writes one initial snapshot and then exactly one snapshot for each multiple of the snapshot interval passed (numbered consecutively, and at the first step boundary not earlier than the requested time), likewise lite snapshots and periodic diagnostics; where steps are longer than the interval one is written per step until it has caught up. It ends no earlier than the requested end time or step count. "
     "Running in pieces produces the same set of outputs as running at once.",
     ["histories", "configurations"],
     "snapshot intervals below, near and above the time-step, first-snapshot times, end times, step limits, runs split in arbitrary pieces, every simulation type",
     "The tests disregard the number and time of snapshots, apart from the last.",
     ["src/Common/Simulation.cpp", "src/Common/SimulationIO.hpp"],
     [("Simulation::Output, Run, InteractiveRun", "src/Common/Simulation.cpp")],
     ["files on disk and their headers after the run; event trace"])

prop("C16", "Parameter files are parsed faithfully or rejected",
     "Any parameter file that follows the documented syntax sets exactly the named parameters to the given values regardless of order, whitespace, comments and label style, and leaves all others at their defaults; entries with unknown names are reported by name and do not disturb the others, values that are not numbers where a number is needed, missing files and run ids, and unknown values of the options a simulation consults end in an error, and every parameter the code consults can be set from the file. "
     "The parameter file recorded by a run reproduces the same parameters when read again.",
     ["inputs", "programs"],
     "arbitrary permutations and formatting of parameter files, all known parameters with values of their type, malformed and unknown entries",
     "Tests read a fixed set of well-formed files.",
     ["src/Common/Parameters.cpp", "src/Headers/Parameters.h", "src/Common/Simulation.cpp"],
     [("ReadParamsFile, ParseLine, SetParameter, RecordParametersToFile, CheckInvalidParameters", "src/Common/Parameters.cpp")],
     ["parameter maps after reading; exit status and message"])

prop("C17", "Unit conversion is consistent and reversible",
     "For every supported unit of every quantity, converting into code units and out again is the identity, derived scales (time, velocity, density, energy, temperature, ...) satisfy their dimensional relations with G = 1 in code units, and the SI/CGS values equal the physical constants. "
     "A dimensional simulation expressed in different input units evolves to the same physical state.",
     ["inputs", "configurations"],
     "all unit names for every quantity in any combination, dimensionless mode, all simulation types",
     "Tests only use dimensionless runs.",
     ["src/Common/SimUnits.cpp", "src/Headers/SimUnits.h", "src/Headers/Constants.h", "src/Common/Simulation.cpp"],
     [("SimUnits::SetupUnits, SimUnit::SIUnit, OutputScale", "src/Common/SimUnits.cpp"), ("ConvertToCodeUnits", "src/Common/Simulation.cpp")],
     ["scale factors; physical state of paired runs"])

prop("C18", "Smoothing kernels are normalised and mutually consistent",
     "Each kernel in each dimension is non-negative, normalised, vanishes beyond its support, and its gradient, h-derivative, gravitational force, potential and zeta functions are the exact derivatives/integrals of the kernel, matching the Newtonian form at the edge of the support; column-integrated and tabulated versions agree with the direct ones to the table resolution.",
     ["inputs", "configurations"],
     "all kernels, dimensions, arguments across [0, support] and beyond, tabulated and direct",
     "Tests use the default kernel at sampled separations.",
     ["src/Headers/SmoothingKernel.h", "src/Hydrodynamics/M4Kernel.cpp", "src/Hydrodynamics/QuinticKernel.cpp", "src/Hydrodynamics/GaussianKernel.cpp", "src/Hydrodynamics/TabulatedKernel.cpp"],
     [("w0, w1, womega, wzeta, wgrav, wpot, wLOS and squared versions", "src/Headers/SmoothingKernel.h"), ("TabulatedKernel initialisation", "src/Hydrodynamics/TabulatedKernel.cpp")],
     ["direct calls"])

prop("C19", "Equations of state are thermodynamically consistent",
     "For every equation of state, pressure, sound speed, temperature, internal energy and entropy function obey its defining relations, agree with each other for every positive density and energy, and are updated consistently on the particles during runs (ideal gas, isothermal, barotropic, locally isothermal, polytropic and, where available, tabulated).",
     ["inputs", "configurations"],
     "all equations of state, density/energy over many decades, gamma, mean molecular weight, critical densities, dimensional and dimensionless, stars for local isothermal",
     "Tests only use two equations of state at few states.",
     ["src/Thermal/AdiabaticEOS.cpp", "src/Thermal/IsothermalEOS.cpp", "src/Thermal/BarotropicEOS.cpp", "src/Thermal/Barotropic2EOS.cpp", "src/Thermal/LocallyIsothermal.cpp", "src/Thermal/PolytropicEOS.cpp", "src/Thermal/IonisingRadiationEOS.cpp", "src/Headers/EOS.h"],
     [("EOS::Pressure, SoundSpeed, SpecificInternalEnergy, Temperature, EntropicFunction", "src/Thermal, src/Headers/EOS.h")],
     ["particle arrays after steps; direct calls"])

prop("C20", "Periodic gravity equals the Ewald sum",
     "With periodic boundaries and self-gravity the Ewald correction plus the nearest-image force equals the converged Ewald lattice sum for every separation and for one, two or three periodic dimensions, so that the total force of a periodic system has no net component and is translation invariant.",
     ["inputs", "configurations"],
     "all separations in the box, cubic and elongated boxes, 1/2/3 periodic axes, SPH and meshless, tree types",
     "One Jeans test in one configuration.",
     ["src/Common/Ewald.cpp", "src/Headers/Ewald.h", "src/GradhSph/GradhSphTree.cpp", "src/MeshlessFV/MeshlessFVTree.cpp"],
     [("Ewald table construction and CalculatePeriodicCorrection", "src/Common/Ewald.cpp")],
     ["direct calls of the correction; accelerations of periodic particle sets"])

prop("C21", "Dust drag exchanges momentum exactly and damps towards terminal motion",
     "Gas-dust drag conserves the total momentum of gas plus dust (and energy, where heating is on), never reverses the sign of the relative velocity, reproduces the analytic decay of a uniform relative drift for each drag law, and in the test-particle limit leaves the gas unaffected.",
     ["inputs", "histories", "configurations"],
     "stopping times from far below to far above the time-step, dust-to-gas ratios, drag laws, full two-fluid and test particle methods, 1-3 dimensions, SPH and meshless",
     "One soundwave test at two stopping times.",
     ["src/Common/Dust.cpp", "src/Headers/Dust.h", "src/Headers/DragLaws.h"],
     [("DustSphNgb interpolation and drag update, DustFull, DustTestPartInterp", "src/Common/Dust.cpp"), ("DragLaws", "src/Headers/DragLaws.h")],
     ["gas and dust momenta after each step"])

prop("C22", "Reported diagnostics equal sums over the particles",
     "The diagnostics record (mass, momentum, angular momentum, centre of mass, kinetic, thermal, gravitational and total energy, net force, energy error, counts) equals the corresponding sums over the live gas, stars and sinks at that time, and the diagnostics file contains these values in the documented units.",
     ["inputs", "histories", "configurations"],
     "SPH, meshless, N-body and hybrid simulations, with sinks, dead particles, 1-3 dimensions, any units",
     "Tests rely on the diagnostics, nothing checks them.",
     ["src/Common/Simulation.cpp", "src/Common/SimAnalysis.hpp", "src/Headers/Diagnostics.h"],
     [("CalculateDiagnostics, OutputDiagnostics, UpdateDiagnostics", "src/Common/SimAnalysis.hpp")],
     ["diagnostics structure and .diag file"])

prop("C23", "Results are reproducible and independent of incidental choices",
     "The same initial conditions and parameters give bit-identical results on repeated runs, and results are independent (to rounding, or to the documented tree tolerance) of the order of the input particles, the neighbour structure, the leaf size and the memory layout of previous work.",
     ["inputs", "configurations", "histories"],
     "permutations of the input, tree types, leaf sizes, repeat runs under different memory contents and address layouts, all simulation types",
     "Each test runs one configuration once.",
     ["src/Tree/HydroTree.cpp", "src/Tree/KDTree.cpp", "src/Hydrodynamics/SphSimulation.cpp", "src/Common/RandomNumber.cpp", "src/Hydrodynamics/Hydrodynamics.cpp"],
     [("ReorderParticles, BuildTree, random number generation", "src/Tree, src/Common")],
     ["final particle arrays of paired runs"])

prop("C24", "Initial-condition generators produce what they promise",
     "Each built-in initial condition produces the requested number of particles (to documented rounding) inside the requested domain, with the requested total mass, density contrasts, velocity and energy fields; random generators draw from the documented distributions and depend only on the seed.",
     ["inputs", "configurations"],
     "all built-in problems, particle numbers, seeds, dimensions, units, boundary options, lattice types",
     "Tests use a few problems with fixed numbers.",
     ["src/Ic", "src/Headers/Ic.h", "src/Common/RandomNumber.cpp", "src/Ic/ICRegularization.cpp"],
     [("Ic<ndim>::Generate of each problem; AddRandomBox/AddCubicLattice/AddHexagonalLattice/...", "src/Ic")],
     ["particle arrays right after setup"])

prop("C25", "No run reads or writes outside its data or uses undefined behaviour",
     "Every simulation type, option combination and input accepted by the program runs without out-of-bounds or use-after-free access, without undefined arithmetic and without a condition, an address or an output that depends on data that was never set (other than the dumps of a debugger), and malformed input ends in a reported error or a normal run and not in a crash or a hang.",
     ["inputs", "configurations", "histories"],
     "all simulation types and options, particle growth (ghost reallocation), deletion, sinks, snapshot reading of truncated or corrupted files, malformed parameter files, tiny particle numbers",
     "Tests run without sanitizers and on well-formed inputs.",
     ["src"], [("memory allocation and re-allocation in Hydro/Nbody/Tree/Sinks", "src")],
     ["AddressSanitizer, UndefinedBehaviorSanitizer and Valgrind reports"])

prop("C26", "The Python layer returns exactly the simulation's data",
     "Data imported from Python arrays is the data simulated, and every quantity extracted from live simulations or loaded snapshots (any particle type, unit and derived quantity) equals the simulation's own arrays with correct unit conversion; snapshot buffers, renderings, time series and analytic solutions correspond to the selected snapshot.",
     ["inputs", "histories", "configurations"],
     "particle types, quantities, units, snapshots loaded and unloaded in any order under memory limits, grids and slices",
     "Tests plot or compare a few quantities in default units.",
     ["analysis/facade.py", "analysis/data_fetcher.py", "analysis/SimBuffer.py", "src/Common/SphSnapshot.cpp", "src/Common/Render.cpp"],
     [("ExtractArray, UserQuantity, SimBuffer, Render::CreateColumnRenderingGrid/SliceRenderingGrid", "analysis, src/Common")],
     ["values returned by the facade vs an independent reading of the snapshot files"])

prop("C27", "Physics is covariant under symmetry transformations",
     "Rotating, reflecting, translating or boosting the initial state, or rescaling it by the natural units of the problem, produces the correspondingly transformed final state to rounding, for SPH, meshless (except boosts, and rotations other than by right angles) and N-body dynamics with exact kernels, converged smoothing lengths and gravity summed directly.",
     ["inputs", "configurations"],
     "axis permutations and reflections, arbitrary translations, boosts, mass/length/time rescalings, gravity on/off, open and periodic boxes, 1-3 dimensions",
     "Each test runs one orientation.",
     ["src/GradhSph", "src/MeshlessFV", "src/Nbody", "src/Tree", "src/Hydrodynamics"],
     [("all force and integration routines", "src")],
     ["final states of paired runs"])

prop("C28", "External potentials act exactly as specified",
     "The vertical and Plummer external potentials add exactly their analytic acceleration, jerk and potential to gas and stars in every configuration and unit system, leave every other quantity untouched, accelerate the centre of mass of an interacting cloud by exactly the uniform field, move test bodies along the analytic parabola or orbit, and enter the recorded energy so that the total is conserved.",
     ["inputs", "configurations", "histories"],
     "both potentials with varied parameters, gas and stars, all integrators, self-gravity on and off, physical units, 1-3 dimensions",
     "No reliable test covers them.",
     ["src/Headers/ExternalPotential.h", "src/Common/Simulation.cpp"],
     [("ExternalPotential::AddExternalPotential, Simulation::ProcessParameters", "src")],
     ["accelerations, jerks, potentials, paths and energy record of pairs of live runs"])

prop("C30", "Feedback sources deposit exactly what they prescribe",
     "Supernovae, ionising radiation and stellar winds deposit the prescribed energy, mass, momentum and ionisation state in the prescribed region and otherwise leave the dynamics untouched.",
     ["inputs", "configurations", "histories"],
     "all feedback options with varied parameters, 3 dimensions",
     "No reliable test covers them.",
     ["src/Feedback/Supernova.cpp", "src/Radiation"],
     [("SupernovaDriver, MultipleSourceIonisation, MonochromaticIonisationMonteCarlo, TreeMonteCarlo", "src")],
     ["energies, masses and ionisation after setup and steps"])


prop("C29", "Assigned time-steps satisfy every stability criterion",
     "The time-step chosen for each particle or star is never larger than the minimum of all enabled criteria (Courant, acceleration, energy, viscous, N-body jerk based, sink accretion), with the configured coefficients, and the system step is the appropriate minimum over all of them.",
     ["inputs", "configurations", "histories"],
     "all simulation types, particle states with large velocities/accelerations/divergences, global and block stepping",
     "Tests never look at step sizes.",
     ["src/Hydrodynamics/SphIntegration.cpp", "src/MeshlessFV/MfvIntegration.cpp", "src/Nbody/Nbody.cpp", "src/Hydrodynamics/SphSimulation.cpp", "src/MeshlessFV/MeshlessFVSimulation.cpp"],
     [("Timestep functions and ComputeBlockTimesteps/ComputeGlobalTimestep", "src/Integration, src/Nbody, src/Common")],
     ["dt, level and nstep per particle after every step, and the state they derive from"])

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    # anchors must exist
    for p in P:
        for fn in p["anchors"]["files"]:
            if not os.path.exists(os.path.join("/repo", fn)):
                print("missing", p["id"], fn)
