ST = ["stencils/D2Q9.cpp", "stencils/D2Q19H.cpp", "stencils/D2Q19V.cpp", "stencils/D2Q25H.cpp", "stencils/D2Q777.cpp", "stencils/D3Q13.cpp", "stencils/D3Q15.cpp", "stencils/D3Q19.cpp",
      "stencils/D3Q21.cpp", "stencils/D3Q27.cpp", "stencils/D3Q45.cpp", "stencils/D3Q77.cpp", "stencils/D3V27.cpp", "stencils/RD3Q27.cpp", "stencils/Stencil.h"]
NOTE_AI = ("Every obligation is decided for symbolic (all real) inputs from the compiled IR; identities are over the reals (rounding is not modelled, constants compared to ~1e-12). "
           "Trusted: clang's lowering, the interpreter in /verif/engine and its models of deal.II/Trilinos containers.")
NOTE_IR = "Decided on the IR of every function of the library concerned; trusted: clang's lowering and the rule implementation. Necessary conditions of the statement, stated per rule in DESIGN.md."

add("L01", "Lattice moments are those of a Gaussian for every velocity set",
    "For every velocity set the library offers and every positive lattice scaling, the weights sum to one and the velocity moments up to the order the set is built for (at least five) equal those of a Gaussian whose variance is the reported squared speed of sound, so hydrodynamics is isotropic. The reported speed of sound and the directions scale linearly with the scaling.",
    ["inputs", "configurations"], "all 14 velocity sets, every scaling s > 0, every moment of order 0..5 (7 or 9 for the higher-order sets)",
    "the stencil tests check a handful of sums for some sets at scaling 1; the higher moments, the scaled sets and D2Q777 are never summed", ST,
    [("weights and directions tables", "makeWeights/makeDirections of each stencil class"), ("speed of sound", "getSpeedOfSound/getSpeedOfSoundSquare")],
    AI, NOTE_AI, observe=["Stencil::getWeights", "Stencil::getDirections", "Stencil::getSpeedOfSoundSquare"])
add("L02", "Velocity sets are symmetric and the opposite-direction map is exact",
    "In every velocity set each direction has exactly one opposite: the opposite map is an involution onto the set, the opposite direction is the negated vector and carries the same weight. The set has the announced dimension and size, no direction occurs twice, the rest direction comes first, and all weights are positive.",
    ["inputs", "configurations"], "all 14 velocity sets, every scaling, every direction (1158 directions)",
    "tests look at single pairs of the small sets; one swapped pair in a 77- or 777-velocity table is invisible to them and breaks every bounce-back boundary", ST,
    [("opposite map", "getIndexOfOppositeDirection"), ("tables", "makeWeights/makeDirections")], AI, NOTE_AI, observe=["Stencil::getIndexOfOppositeDirection"])
add("L03", "Moment bases are complete and their inverses belong to them",
    "For every velocity set the moment basis is invertible at unit scaling, and the inverse basis handed out is the inverse of the basis handed out for every scaling.",
    ["inputs", "configurations"], "all velocity sets with a moment basis, every scaling", "tests multiply M and its inverse for two sets at scaling 1", ST,
    [("moment basis", "makeMomentBasis"), ("inverse", "getInverseMomentBasis / FullMatrix inversion in the constructors")], AI, NOTE_AI, observe=["Stencil::getMomentBasis", "Stencil::getInverseMomentBasis"])

CA = ["collision_advanced/CollisionOperator.h", "collision_advanced/CollisionSchemes.h", "collision_advanced/Equilibria.h", "collision_advanced/AuxiliaryCollisionFunctions.h",
      "collision_advanced/AuxiliaryMRTFunctions.cpp", "collision_advanced/CollisionSelection.h"]
add("E01", "Every selectable equilibrium reproduces density, momentum and pressure",
    "For every equilibrium that a configuration can select and every velocity set it is offered with, the equilibrium populations computed from any density, velocity (and temperature) sum to that density, carry that momentum, and, where the order of the velocity set can carry it, have the second moment of a Maxwellian (density times velocity squared plus isotropic pressure).",
    ["inputs", "configurations"], "every density, velocity and temperature; every selectable (velocity set, equilibrium) pair; every lattice scaling",
    "the equilibrium tests compare a few populations at one or two states for D2Q9/D3Q19", CA, [("equilibria", "BGKEquilibrium, QuarticEquilibrium, ... ::calc")], AI, NOTE_AI)
add("C01", "Collision conserves mass and momentum at every node",
    "Without an external force, the collision step leaves the sum of the populations and their momentum unchanged at every node, for every state of the populations and every collision scheme, equilibrium and velocity set that the configuration can select.",
    ["inputs", "configurations"], "all population values with non-vanishing density, all viscosities, time steps and scalings, every selectable (velocity set, scheme, equilibrium)",
    "tests run a few steps of a few schemes on one grid and compare totals with a tolerance", CA, [("collide loops", "CollisionOperator::collideAll"), ("schemes", "CollisionSchemes.h")], AI, NOTE_AI)
add("C02", "Equilibrium is a fixed point of collision; BGK relaxes at the configured rate",
    "A node whose populations already are the equilibrium of its own density and velocity is left unchanged by the collision step. For BGK every population moves towards that equilibrium by the fraction 1/tau.",
    ["inputs", "configurations"], "all equilibrium states; every selectable combination", "tests check it for single states of BGK on D2Q9", CA, [("relaxation", "BGKCollision/Regularized/MultipleRelaxationTime::relax")], AI, NOTE_AI)
add("C03", "Relaxation time matches the viscosity",
    "The relaxation time every collision path uses is viscosity / (speed of sound squared times time step) plus one half for the viscosity of the problem, the current time step and the scaled velocity set.",
    ["inputs", "configurations"], "all viscosities, time steps, scalings and velocity sets", "tests evaluate one value", CA + ["collision/BGK.cpp", "collision/MRT.cpp"], [("tau", "calculateTauFromNu / calculateRelaxationParameter")], AI, NOTE_AI)
add("C04", "A body force adds exactly force times time step of momentum and no mass",
    "With a constant body force, one collision step with any force scheme of the incompressible solver changes the momentum of every node by force times time step and its mass not at all.",
    ["inputs", "configurations"], "all states, forces, time steps, scalings", "tests only look at the steady state of one channel flow", CA, [("forcing", "applyMacroscopicForces / applyForces / postCollisionApplyForces")], AI, NOTE_AI)
add("C05", "Multi-relaxation-time collision leaves conserved moments alone",
    "The multi-relaxation-time transforms are inverse to each other for every supported velocity set, basis and relaxation choice; relaxation of the density and momentum moments is switched off, and the shear moments relax with the rate that gives the configured viscosity.",
    ["inputs", "configurations"], "all supported velocity sets, bases and relaxation-time sets", "tests multiply a single matrix", CA, [("matrices", "AuxiliaryMRTFunctions")], AI, NOTE_AI)
add("C06", "Compressible collision conserves total energy",
    "In the compressible solver the collision step conserves mass, momentum and total energy (kinetic plus internal, summed over both population sets) at every node, for every heat capacity ratio, Prandtl number and viscosity law.",
    ["inputs", "configurations"], "all states with positive density and temperature; every selectable combination", "tests check one configuration on one grid to a tolerance", CA, [("relaxWithG", "CollisionSchemes.h"), ("gStar", "AuxiliaryCollisionFunctions.h")], AI, NOTE_AI)
add("C07", "Collision updates every node and reports the moments it used",
    "The collision step visits every local node exactly once, replaces all populations of the node, and stores in the macroscopic fields exactly the density, velocity and temperature computed from the node's own populations before collision (compressible BGK also the shock sensor: the mean weighted distance of the node from its equilibrium).",
    ["inputs", "configurations"], "every selectable combination; every node", "tests compare single nodes", CA, [("collide loops", "CollisionOperator::collideAll")], AI, NOTE_AI)
add("C09", "Collision commutes with the rotations and reflections of the lattice",
    "Reflecting a coordinate axis or exchanging two axes, where that maps the velocity set onto itself, commutes with the collision step: colliding the transformed populations gives the transformed result of colliding the original ones. No direction of space is preferred by any selectable combination of velocity set, scheme, equilibrium and relaxation times.",
    ["inputs", "configurations"], "all population values; every selectable combination; every axis reflection and exchange that is a symmetry of the set",
    "no test compares rotated states", CA, [("schemes and equilibria", "CollisionSchemes.h, Equilibria.h"), ("relaxation rates", "AuxiliaryMRTFunctions.cpp")], AI, NOTE_AI)
add("S01", "The configured collision is the one that runs, exactly once",
    "For every velocity set, collision scheme, equilibrium and solver kind, the collision selection either performs exactly the configured scheme with the configured equilibrium, exactly once, or refuses with an exception. It never silently substitutes another model and never returns without having collided.",
    ["configurations", "inputs"], "all 13 velocity sets x 13 schemes x 5 equilibria (x MRT bases) x {incompressible, compressible}; all population values",
    "tests run a handful of the combinations and only look at the flow they produce", CA, [("dispatch", "selectCollision / DEFINE_POSSIBLE_COLLISION in CollisionSelection.h")], AI, NOTE_AI)

CL = ["collision/CollisionModel.h", "collision/CollisionModel.cpp", "collision/BGK.h", "collision/BGK.cpp", "collision/BGKStandard.cpp", "collision/BGKRegularized.cpp", "collision/MRT.cpp", "collision/MRTStandard.cpp",
      "collision/BGKSteadyState.cpp", "collision/BGKStandardTransformed.cpp", "collision/KBCCentral.cpp", "collision/KBCStandard.cpp", "collision/EntropicStabilized.cpp"]
add("I01", "Initial distributions carry the prescribed density and velocity",
    "The distributions a simulation is initialised with (the equilibrium of the collision model for the prescribed density and velocity) sum to that density, carry that momentum and have the Maxwellian stress, for every collision model and velocity set that can be configured.",
    ["inputs", "configurations"], "every density, velocity and scaling; 10 collision models x 13 velocity sets", "tests evaluate one state on D2Q9", CL,
    [("initial distributions", "CollisionModel::getEquilibriumDistributions"), ("equilibria", "getEquilibriumDistribution of each model")], AI, NOTE_AI)
add("C08", "Stand-alone collision kernels conserve and match their equilibrium",
    "Without a force, each collideAll kernel of the collision model classes (used by the iterative initialisation and by library users) conserves mass and momentum at every node and reports the node's own density and velocity; the BGK kernels, including the hand-optimised D2Q9/D3Q15/D3Q19 ones, relax towards the model's announced equilibrium at rate 1/(tau+1/2). In the initialisation procedure the prescribed velocity is kept and mass is conserved. The multistep kernels relax populations and history with the coefficients of their scheme (third-order Adams-Moulton, BDF2), keep populations and equilibria of this collision for the next, and refuse lattices they do not implement.",
    ["inputs", "configurations"], "all population values (and histories); every kernel x velocity set that does not refuse", "tests compare single nodes for a few kernels", CL, [("kernels", "collideAll / collideAllD2Q9 / collideAllD3Q15 / collideAllD3Q19")], AI, NOTE_AI)

SC = ["solver/SolverConfiguration.h", "solver/SolverConfiguration.cpp"]
add("U01", "Configuration values survive the round trip through their parameter",
    "Every setter of the solver configuration stores its value under the documented parameter and under no other, and the matching getter returns exactly what was set; every documented option text in a parameter file selects the documented scheme and every scheme can be selected. Declared defaults satisfy their own patterns, optional physics is off until it is set, and contradictory settings are refused while consistent ones are accepted.",
    ["configurations", "inputs"], "all setter/getter pairs, all enumerators and option texts, all numeric values", "tests set a few values and read them back; a swapped label or section is invisible until that option is used", SC,
    [("parameter declarations", "SolverConfiguration::SolverConfiguration"), ("accessors", "setX/getX in SolverConfiguration.h"), ("consistency", "isConsistent")], AI, NOTE_AI, observe=["SolverConfiguration"])
add("U02", "A command-line option changes the configuration entry it documents",
    "Every documented command-line option is declared, is read with its declared type and sets exactly the configuration entry it documents to the given value; options that are not given leave the configuration alone. Values outside the documented lists and conflicting options are refused instead of being ignored or misread.",
    ["configurations", "inputs"], "every documented option, all listed values, all numeric values, single options and the documented conflicts", "no test runs more than a few options", ["utilities/CommandLineParser.h", "utilities/CommandLineParser.cpp"],
    [("declaration", "CommandLineParser::CommandLineParser"), ("application", "CommandLineParser::applyToSolverConfiguration")], AI, NOTE_AI, observe=["CommandLineParser::applyToSolverConfiguration"])
add("U03", "Preparing the output directory refuses what it cannot use and destroys nothing",
    "Before a run starts, an output directory whose parent is missing, that cannot be created, whose existing files cannot be written or in which no new file can be made is refused with an exception; otherwise it and its checkpoint directory exist afterwards. Files of earlier runs are neither truncated nor removed by this, and nothing is left behind. With user interaction on, a run that does not restart from a checkpoint asks before it may overwrite a non-empty directory and goes on only if the answer is yes; in every other case nobody is asked.",
    ["inputs", "configurations", "fault_sequences"], "file system states (missing, blocked, empty, old output, old checkpoints, unwritable files or directories), restart and interaction settings, answers, ranks", "tests cover a few states and, run as root, no unwritable one", SC,
    [("preparation", "SolverConfiguration::prepareOutputDirectory")], AI, NOTE_AI, observe=["SolverConfiguration::prepareOutputDirectory"])
SO = ["solver/CFDSolver.cpp", "solver/CFDSolver.h", "solver/CompressibleCFDSolver.h"]
add("R01", "A run performs its steps in order and stops exactly when it should",
    "A run starts with one collision at the start iteration; every iteration is output, advance the counter by one, stream, (stream g,) filter, collide, data processors in their order; the run ends with the final output. It stops exactly when the configured number of steps or the end time is reached, or, tested every 100 iterations with fresh residuals, when the velocity residual is below the threshold.",
    ["inputs", "histories", "configurations"], "every start iteration, step count, number of data processors, iteration, time, limit and residual, for the incompressible and the compressible solver",
    "tests run a few steps and look at the end state", SO, [("main loop", "CFDSolver::run, CompressibleCFDSolver::run"), ("stop test", "CFDSolver::stopConditionMet")], AI, NOTE_AI)
add("R02", "Solution files, tables and checkpoints are written on schedule",
    "Solution files appear exactly every output-solution interval (intervals above 1e8 mean never) and at the end of the run, table lines every output-table interval, and checkpoints every checkpoint interval and at the end (never for intervals above 1e8, never at the iteration the run started from); with the output switched off nothing is written. A solution file holds density, velocity (and temperature) under their own names and is named by process and iteration; a checkpoint holds the current populations (f, and g for compressible runs) labelled with the current iteration, time, stencil scaling and finite-element order.",
    ["inputs", "histories", "configurations"], "every iteration, start iteration, triple of intervals, switch and final flag; the guards of every write are evaluated over a grid that contains all boundary cases",
    "tests never look at which files a run leaves behind", SO, [("output", "CFDSolver::output, CompressibleCFDSolver::compressibleOutput")], AI, NOTE_AI)
add("R03", "Streaming, filtering and collision act on the solver's whole state, once",
    "One streaming step replaces every moving population by the advected value with boundary conditions evaluated for the end of the step, leaves the resting population alone, treats the multistep history in the same way (only once the history exists), and advances the time by exactly the step streamed. The filter acts on every population exactly every filter-interval iterations; the collision gets the solver's populations, macroscopic fields, viscosity, velocity set and time step and its results become the solver's state. After each of them the ghosted copies of the populations equal the populations.",
    ["inputs", "configurations", "histories"], "all population values, matrices, boundary data, time steps; both advection kinds, with and without limiter, all multistep schemes and step counts",
    "tests run whole flows with tolerances; a history that is not streamed or a ghost that is stale only shows in rare configurations", SO + ["solver/DistributionFunctions.cpp", "solver/DistributionFunctions.h"],
    [("streaming", "CFDSolver::stream, CompressibleCFDSolver::stream, gStream"), ("filter", "CFDSolver::filter, compressibleFilter"), ("collision coupling", "collide")], AI, NOTE_AI)
add("K01", "Checkpoints restore exactly what was saved",
    "Loading a checkpoint gives back every population of every node, the iteration number, the time, the velocity-set scaling and the order that were saved, for every velocity set. A restart on a refined mesh interpolates every population once per refinement; one on a coarser mesh or with another order is refused, and populations of another scaling are converted or refused, not mixed up. Checkpoints of different iterations and of the two distributions never overwrite each other, the automatic restart takes the most recent complete one of its own kind, and a checkpoint that is missing or does not fit is refused.",
    ["inputs", "histories", "configurations"], "every population value, velocity set, number of refinements, scaling, order and set of files in the checkpoint directory", "tests write and read a single checkpoint", ["solver/Checkpoint.cpp", "solver/Checkpoint.h"],
    [("writing", "Checkpoint::write"), ("reading", "Checkpoint::load, loadFromDeprecatedCheckpointVersion"), ("file names", "Checkpoint::Checkpoint")], AI, NOTE_AI)
add("R04", "A simulation starts from the prescribed or the restored state",
    "A new simulation has the density, velocity and temperature of the initial functions at every node, and distributions that carry them, for every initialisation scheme; a restarted one has exactly the fields that the restored distributions carry. The iterative initialisation stops when its residual is below the limit or after the configured number of iterations.",
    ["inputs", "configurations", "histories"], "all initial functions and restored distributions, both solvers, equilibrium and iterative initialisation with every sequence of residuals up to the iteration limit", "tests start a few flows and look at the end state", SO,
    [("initial fields", "applyInitialDensities/Velocities/Temperatures"), ("initial distributions", "initializeDistributions"), ("restart", "calculateDensitiesAndVelocities, applyCheckpointToG")], AI, NOTE_AI)
add("R05", "A solver is assembled from exactly the configured parts",
    "The solver constructor builds the configured velocity set, advection operator, collision model, time integrator, filter, regularisation and statistics, each with the configured parameters, a time step that follows from the CFL number and the mesh, and the relaxation time that belongs to it; the parts are set up before they are used. Configurations that do not fit the problem, the mesh or the checkpoint directory are refused.",
    ["configurations", "inputs"], "every enumerator of every choice (stencil, advection, flux, quadrature, support points, collision with and without force, integrator, filter, regularisation, output switches, restart), all numeric parameters symbolic", "tests construct a handful of configurations", ["solver/CFDSolver.cpp", "utilities/CFDSolverUtilities.cpp", "collision/BGK.cpp", "collision/MRT.cpp"],
    [("construction", "CFDSolver::CFDSolver"), ("time step", "CFDSolverUtilities::calculateTimestep")], AI, NOTE_AI)
add("T01", "A time step of the integrators approximates the linear flow to its order",
    "For every system matrix A, source b and state f, one Runge-Kutta step agrees with the exact solution of f' = A f + b up to a fifth-order remainder, one theta step returns the solution of (1 - theta dt A) f' = (1 + (1 - theta) dt A) f + dt b, and one exponential step adds the phi-function combination of the Krylov basis of A f + b. A deal.II integrator is the scheme of the configured name; it integrates f' = A f + b from the current time by the requested step, and its implicit stages are solved with 1 - tau A. Each advances the time by the step it used, remembers a newly given step size, leaves A and b untouched and stays defined in a steady state.",
    ["inputs", "histories"], "block and plain distributed vectors; matrix, source, state and time symbolic (two unknowns, so every polynomial identity in a generic 2x2 matrix); step size stored, given, and given equal; the exponential integrator with symbolic vectors and enumerated inner products, including exhausted Krylov spaces; all twelve deal.II schemes, with and without step size control", "tests integrate one scalar ODE per integrator at loose tolerances; the source term and the reuse of the assembled matrix are not sampled", ["timeintegration/RungeKutta5LowStorage.cpp", "timeintegration/ThetaMethod.cpp", "timeintegration/ExponentialTimeIntegrator.cpp", "timeintegration/DealIIWrapper.cpp", "utilities/SemiParallelMatrix.cpp"],
    [("Runge-Kutta", "RungeKutta5LowStorage::step"), ("theta method", "ThetaMethod::step"), ("exponential", "ExponentialTimeIntegrator::step"), ("deal.II", "DealIIWrapper::step")], AI, NOTE_AI)
add("D01", "The population container keeps its layout and both of its views consistent",
    "A container of Q populations addresses population i by index i only, with population 0 resting and the others streaming, and its ghosted view shows the current populations after every documented update (the vector itself in the discontinuous case). Copies, assignments, scaling and replacement act on every entry of every population in both views; equality holds exactly when no entry on any process differs by more than the threshold. Transferring populations to another scaling keeps density and momentum at every node and is undone by transferring back.",
    ["inputs"], "discontinuous and continuous containers, nine stencils with symbolic populations and scalings; every entry of every population for the comparison", "tests compare one 2D container after one update", ["solver/DistributionFunctions.cpp", "solver/DistributionFunctions.h"],
    [("layout", "DistributionFunctions::reinit"), ("views", "DistributionFunctions::updateGhosted"), ("transfer", "DistributionFunctions::transferFromOtherScaling")], AI, NOTE_AI)
add("A01", "Semi-Lagrangian streaming reads every population at its exact departure point",
    "For every time step, every population at every support point is the finite-element interpolation of the same population at the point reached by following its velocity back for the time step, through periodic boundaries, and of the opposite population when the path is reflected at a wall; nothing is streamed from beyond an open boundary. The matrix fits its sparsity pattern, touches only rows of owned nodes and reads only owned and ghost cells; a new time step replaces the old matrix, assembling again changes nothing. One streaming step applies that matrix once and keeps the previous state for the boundaries.",
    ["inputs", "configurations"], "every step size below the CFL limit of the analysed meshes (symbolic inside the ranges in which the paths cross the same cells), every support point and direction; orders 1-3, periodic, wall and open boundaries, 2D and 3D, one or several processes", "tests advect one smooth profile and compare with a loose tolerance; wrong weights at a few points or for one range of steps go unnoticed",
    ["advection/SemiLagrangian.cpp", "advection/SemiLagrangian.h", "advection/SemiLagrangianTools.cpp", "advection/AdvectionOperator.cpp", "boundaries/PeriodicBoundary.cpp", "utilities/DealiiExtensions.cpp"],
    [("assembly", "SemiLagrangian::fillSparseObject"), ("tracking", "SemiLagrangian::faceCrossedFirst"), ("periodic neighbours", "DealIIExtensions::make_periodicity_map_dg, PeriodicBoundary"), ("streaming", "SemiLagrangian::stream")], AI, NOTE_AI)
add("A02", "The discontinuous Galerkin operator is a consistent, conservative advection",
    "For every population and node the assembled rate of change is minus velocity times gradient of the cell's polynomial plus the upwind (or central) flux difference through every face of the node, divided by the collocation mass; the neighbour is that across the face, also through periodic boundaries, and at a wall the opposite population with the momentum of the wall velocity. Hence a uniform fluid at rest stays at rest and no mass is created. Every entry fits the sparsity pattern, only rows of owned nodes are written, and assembling again gives the same operator.",
    ["inputs", "configurations"], "every matrix entry and vector entry on the analysed meshes: orders 1-4, upwind and central flux, periodic, walls on all sides, 2D and 3D, boundary numbers in any order, one or several processes, scaled velocity sets; wall velocities arbitrary linear functions of space", "tests construct the operator and stream a smooth profile; the central flux, boundary numbering and re-assembly are not covered",
    ["advection/SEDGMinLee.cpp", "advection/SEDGMinLee.h", "advection/AdvectionOperator.cpp", "boundaries/VelocityNeqBounceBack.cpp", "boundaries/VelocityNeqBounceBack.h", "boundaries/BoundaryTools.cpp", "boundaries/PeriodicBoundary.cpp", "utilities/DealiiExtensions.cpp"],
    [("volume terms", "SEDGMinLee::assembleLocalDerivativeMatrices, calculateAndDistributeLocalStiffnessMatrix"), ("face terms", "SEDGMinLee::assembleAndDistributeInternalFace"), ("walls", "VelocityNeqBounceBack::assembleBoundary, BoundaryTools::CoupleDoFsAtBoundary"), ("pattern", "DealIIExtensions::make_sparser_flux_sparsity_pattern")], AI, NOTE_AI)
add("B01", "Boundary conditions impose the prescribed values where and when they are met",
    "A population reflected at a wall gains 2 w (e.u)/cs^2 for the wall velocity at the point and time of every reflection; one that enters through a velocity boundary is the equilibrium of the prescribed velocity and temperature (the energy distribution matching that temperature); first-order bounce back returns the opposite population; a thermal wall keeps density and momentum of the node and turns an equilibrium into that of the wall temperature. All other populations and the previous state stay as they are, also when the operator is assembled again or paths get caught in a corner.",
    ["inputs", "configurations"], "every support point, direction and step size of the analysed meshes; wall velocities that are arbitrary linear functions of space and time (different for every boundary and component), symbolic velocities, temperatures and populations; 2D and 3D, orders 1-3, one or several processes", "tests use one constant wall velocity; where, when and how often a wall acts cannot be seen with it",
    ["boundaries/SemiLagrangianBoundaryHandler.cpp", "boundaries/BoundaryHit.h", "boundaries/FEBoundaryValues.h", "boundaries/VelocityNeqBounceBack.cpp", "boundaries/SLEquilibriumBoundary.h", "boundaries/SLFirstOrderBounceBack.h", "boundaries/ThermalBounceBack.cpp", "boundaries/BoundaryFlags.h", "boundaries/BoundaryTools.h", "advection/SemiLagrangian.cpp"],
    [("hits", "BoundaryHit, HitList, SemiLagrangianBoundaryHandler::addHit"), ("application", "SemiLagrangianBoundaryHandler::operate, applyToG"), ("conditions", "calculateBoundaryValues of every boundary")], AI, NOTE_AI)
BM = ["benchmarks/%s" % f for f in ("TaylorGreenVortex2D.cpp", "TaylorGreenVortex3D.cpp", "CouetteFlow2D.cpp", "CouetteFlow2D.h", "CouetteFlow3D.cpp", "CouetteFlow3D.h", "PoiseuilleFlow2D.cpp", "PoiseuilleFlow3D.cpp", "SinusoidalShear2D.cpp", "AdvectionBenchmark.cpp",
      "ShearLayer2D.cpp", "Riemann2D.cpp", "Droplet2D.cpp", "LubricationSine.cpp", "PeriodicTestDomain2D.cpp", "PeriodicTestDomain3D.cpp")] + ["problemdescription/%s.h" % f for f in ("ProblemDescription", "Benchmark", "CompressibleBenchmark", "ConstantExternalForce")]
add("N01", "Benchmark solutions solve the equations and fit the initial state",
    "The analytic solution of every benchmark is what it is called: the Taylor-Green velocity is divergence free, solves the Navier-Stokes equations with the benchmark's viscosity for every domain length, drift velocity and time, and has the domain's period; Couette solutions satisfy the momentum equation, stick to both plates and start from rest; the initial density, velocity and temperature are the analytic ones at time zero (or the documented profile), and a driving force carries exactly the flow it is meant to drive.",
    ["inputs", "configurations"], "every point, time, viscosity, amplitude, Mach number and domain length (symbolic), every component; the initial state for every benchmark and switch of its constructor",
    "tests evaluate a solution at one point or compare runs with the very same function; a wrong decay rate for a domain other than the tested one is invisible", BM,
    [("solutions", "AnalyticVelocity/AnalyticDensity/AnalyticTemperature::value"), ("initial states", "InitialVelocity/InitialDensity::value, Benchmark::BenchmarkVelocity"), ("forces", "ConstantExternalForce")], AI, NOTE_AI)
add("N02", "Benchmark problems build the mesh and boundaries they announce",
    "Every benchmark constructs a grid of the announced domain, marks the faces so that every boundary number in use belongs to exactly one boundary object, pairs opposite faces by periodic boundaries with the right direction, gives every wall the announced velocity, refines as often as asked, and transforms the grid by a map that keeps the domain, its boundary and the periodicity and is nowhere degenerate.",
    ["configurations", "inputs"], "22 variants of 15 benchmarks; every face, boundary number, refinement level and vertex (symbolic points of the transformation, several domain lengths)",
    "tests look at one or two boundary numbers; a transformation that folds the grid or a periodic pair with swapped numbers changes every later result silently", BM,
    [("grids", "makeGrid of every benchmark"), ("boundaries", "makeBoundaries"), ("transformations", "transform, UnstructuredGridFunc")], AI, NOTE_AI)
add("Q01", "Integral quantities and turbulence statistics are what they are named",
    "Mass, kinetic energy, enstrophy, entropy, mean velocity and extremal pressure are the integral (mean, extremum) of the named density over the owned cells of all processes; every column of the turbulence statistics is the volume average of the product of density, velocity components and derivatives its legend names; plane statistics are the mean and deviation over the plane; velocity norms run over the owned nodes of all processes.",
    ["inputs", "configurations"], "all nodal values (symbolic), orders 1 and 2, continuous and discontinuous fields, one and several processes, non-square cells, 2D and 3D; every column of every statistic",
    "tests compare a constant or linear field, for which most wrong weights give the same number", ["solver/PhysicalProperties.cpp", "solver/TurbulenceStats.cpp", "solver/TurbulenceStats.h", "dataprocessors/GlobalTurbulenceStats.cpp", "dataprocessors/CompressibleTurbulenceStats.cpp", "utilities/Math.h"],
    [("integrals", "PhysicalProperties::mass, kineticEnergy, enstrophy, entropy, meanVelocityX"), ("turbulence statistics", "GlobalTurbulenceStats::calculate, CompressibleTurbulenceStats::calculate"), ("planes", "StatsInPlane")], AI, NOTE_AI)
add("F01", "Filters damp exactly the modes they announce and keep the mean",
    "The exponential and the new filter multiply every Legendre mode of a cell by the documented factor of its own degree (sum or maximum), leave modes below the cutoff, the cell mean and foreign nodes unchanged; the pseudo-entropic stabilizer keeps density, momentum and the stress it is documented to keep, removes every other moment, acts on each node alone and is idempotent.",
    ["inputs", "configurations"], "all nodal values (symbolic), orders up to 5 in 2D and 3 in 3D, exponent, strength and cutoff of the filter, one and several processes; both stabilizer variants for their velocity sets",
    "tests apply a filter to one field in 2D", ["smoothing/ExponentialFilter.cpp", "smoothing/ExponentialFilter.h", "smoothing/NewFilter.cpp", "smoothing/NewFilter.h", "dataprocessors/PseudoEntropicStabilizer.cpp"],
    [("filters", "applyFilter, makeProjectionMatrices, makeDegreeVectors"), ("stabilizer", "PseudoEntropicStabilizer::apply")], AI, NOTE_AI)
add("V01", "Time step and distances follow the mesh, the order and the fastest velocity",
    "The time step is CFL times the smallest distance over all cells of all processes, divided by the order squared and the maximal particle speed, which is that of the fastest direction of the velocity set; mesh and node distances are minima over all processes; a documented integrator number selects the integrator of that name; make_stencil builds the asked velocity set with the asked scaling or refuses.",
    ["inputs", "configurations"], "8 irregular grids x orders x processes, every CFL number, all 14 velocity sets and scalings, all 15 integrator numbers, 44 combinations of dimension and size",
    "tests use uniform grids and two velocity sets", ["utilities/CFDSolverUtilities.cpp", "utilities/CFDSolverUtilities.h"] + ST,
    [("time step", "CFDSolverUtilities::calculateTimestep"), ("distances", "getMinimumVertexDistance, getMinimumDoFDistanceGLL"), ("speeds", "Stencil::getMaxParticleVelocityMagnitude")], AI, NOTE_AI)
add("W01", "Residuals, errors and their tables describe the current state",
    "The residual is the largest change of a node since the last evaluation (at least 100 iterations apart), and evaluating statistics leaves the fields alone; a row of the results table holds time, extrema and integrals of the current fields; errors are taken against the exact solution at the current time, maxima and L2 norms over all processes; columns appear in the order of the header or legend, a continued run appends to its table without a second header, and one process only creates and writes the file. The same holds for the turbulence tables: each row is evaluated anew, plane statistics are mean and deviation over the nodes of the plane, and the running mean weights all samples alike.",
    ["inputs", "histories", "configurations"], "all nodal values and exact values (symbolic), iterations around every threshold for fresh and continued runs, one and several processes, first and other rank, both solvers, 2D and 3D",
    "tests never read the tables, and the residual only acts in long runs", ["solver/SolverStats.h", "solver/ErrorStats.cpp", "solver/CompressibleErrorStats.cpp", "solver/BenchmarkCFDSolver.cpp", "solver/BenchmarkCompressibleCFDSolver.cpp", "solver/CFDSolver.h", "solver/TurbulenceStats.cpp", "dataprocessors/GlobalTurbulenceStats.cpp", "dataprocessors/CompressibleTurbulenceStats.cpp"],
    [("residual", "SolverStats::calculateResiduals"), ("rows", "SolverStats::update, printNewLine"), ("errors", "ErrorStats::update, CompressibleErrorStats::update")], AI, NOTE_AI)
add("NA1", "Refining the mesh converges to the Navier-Stokes solution at the designed order",
    "For a smooth flow the error of velocity and density against the exact solution of the weakly compressible equations decreases with the mesh size and the polynomial order at the rate of the discretisation. The error constants do not depend on the orientation of the mesh.",
    ["inputs"], "all benchmark flows and refinement sequences", "convergence studies are sampled", ["solver/CFDSolver.cpp", "advection/SemiLagrangian.cpp", "advection/SEDGMinLee.cpp"],
    [("time loop", "CFDSolver::run")], None, "", na="the observable is the asymptotic behaviour of a whole simulation (discretisation error against a PDE solution); no static argument in reach bounds it. Its ingredients - moments, equilibrium, relaxation time, advection operator, schedule - are claimed separately.")
add("NA2", "A distributed run computes the same flow as a serial run",
    "For every number of processes and every partition of the mesh the macroscopic fields agree with those of the serial run up to the tolerance of the linear algebra. No process count deadlocks.",
    ["schedules"], "all partitions", "tests run on one or two processes", ["solver/CFDSolver.cpp", "advection/SemiLagrangian.cpp"],
    [("time loop", "CFDSolver::run")], None, "", na="depends on the partitioner, Trilinos and floating-point reduction order at run time, which are outside the source; the locally decidable parts (every owned node stored once, reductions over processes, ghost updates before reads) are obligations of C07, R01, R03, D01 and K01.")
add("NA3", "The scheme stays bounded for admissible Mach numbers and viscosities",
    "For every admissible configuration below the documented Mach and CFL limits the populations stay bounded and the density positive throughout the run.",
    ["inputs", "histories"], "all admissible parameters", "stability is sampled by a few benchmarks", ["solver/CFDSolver.cpp"],
    [("time loop", "CFDSolver::run")], None, "", na="nonlinear stability of the coupled scheme is an open analytical question; no sound static bound on the populations is in reach.")
