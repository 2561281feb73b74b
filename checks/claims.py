EQNOTE = ('for all inputs at the instantiated dimensions, in exact real arithmetic; user supplied virtual functions are uninterpreted '
          'functions of their arguments; Eigen and std containers are modelled, not analysed')

claim('C01', 'The Riccati sweep computes the exact minimiser of the unconstrained LQ problem',
      'For every unconstrained linear-quadratic optimal control problem, the backward sweep produces at every stage the Riccati cost-to-go, '
      'feedback gain and feedforward update of the (regularised) stage problem, and the forward pass reproduces the optimal state and control '
      'updates under the affine dynamics. Every stage is visited exactly once from the last to the first, the cost-to-go stays symmetric, '
      'solving stage by stage gives the same result as solving at once, and changing the horizon or the problem resizes all storage consistently.',
      ['inputs', 'configurations'], 'all LQ problem data, horizons, Hessian regularisation settings',
      'tests solve a handful of random problems with one setting; an error in one term, one branch or one stage index that vanishes for the '
      'sampled data (zero offsets, symmetric cost, default regularisation) is invisible',
      [OPT + 'solver/lqp/GNRiccatiSolver.hpp', OPT + 'solver/lqp/GNRiccatiSolver-impl.hpp', OPT + 'solver/lqp/LQOCSolver.hpp'],
      [('backward sweep', 'GNRiccatiSolver::solve, solveSingleStage, designController, computeCostToGo'),
       ('forward pass', 'GNRiccatiSolver::computeStatesAndControls')], EQNOTE)

claim('C08', 'Sampled trajectories evaluate to the value their samples define at every time',
      'Evaluating a sampled trajectory at any time returns the held first/last sample outside the sampled range, the exact convex combination of '
      'the two neighbouring samples (linear interpolation) or the preceding sample (zero-order hold) inside, independent of earlier queries. '
      'Appending, erasing from the front, shifting, swapping, copying and slicing keep samples and time stamps paired, array arithmetic is '
      'element-wise and refuses different lengths, and uniform time grids have stamp i at start + i*dt.',
      ['inputs', 'histories'], 'all sample arrays, increasing time grids, query times and earlier query sequences',
      'the search index is cached between calls and every boundary (before, at, between, after samples, single sample, empty) is its own branch; '
      'tests sample a few queries in increasing order',
      [CORE + 'common/Interpolation.h', CORE + 'types/trajectories/DiscreteTrajectoryBase.h', CORE + 'types/arrays/DiscreteArray.h',
       CORE + 'types/arrays/TimeArray.h'],
      [('index search and interpolation', 'Interpolation::findIndex, interpolate'), ('trajectory container', 'DiscreteTrajectoryBase'),
       ('arrays', 'DiscreteArray, TimeArray')], EQNOTE)

claim('C09', 'Switched systems evaluate exactly the phase active at the queried time',
      'A phase sequence assigns every time to exactly one phase (start-inclusive, end-exclusive; before the start the first phase, after the end '
      'the last), appending phases accumulates durations, and every switched continuous, discrete, linear or linearised system evaluates its '
      'dynamics, derivatives and A/B matrices with exactly the subsystem of the phase active at the queried time, with state, control and time '
      'passed through unchanged; copies own their own subsystems.',
      ['inputs', 'configurations'], 'all mode sequences, subsystem sets, query times (also exactly at switches and outside the sequence)',
      'tests query a handful of times in one or two sequences; behaviour at switch instants and outside the sequence is a separate branch',
      [CORE + 'switching/Switching.h', CORE + 'systems/continuous_time/SwitchedControlledSystem.h',
       CORE + 'systems/continuous_time/linear/SwitchedLinearSystem.h', CORE + 'systems/discrete_time/SwitchedDiscreteControlledSystem.h',
       CORE + 'systems/discrete_time/linear/SwitchedDiscreteLinearSystem.h'],
      [('phase lookup', 'PhaseSequence::getIdxFromTime and accessors'), ('dispatch', 'Switched*System::computeControlledDynamics/propagateControlledDynamics/getDerivative*')],
      EQNOTE)

claim('C12', 'Linearisations are the difference quotients they claim; linear systems are Ax+Bu',
      'Numerical linearisation returns, column by column, the one- or two-sided difference quotient of the given dynamics with step '
      'eps*max(|v|,1) at the queried state, control and time; the second-order option fixes the upper block rows to [0 I] and 0; linear and LTI '
      'systems evaluate A x + B u with the matrices for the queried time; discrete linearisers return A and B of the same point; numeric '
      'Jacobians and Hessians of generic functions are the corresponding difference quotients.',
      ['inputs', 'configurations'], 'all dynamics functions, states, controls, times, derivative options',
      'tests compare with one analytic system at random points with tolerances that hide a wrong step, a stale column or an ignored time',
      [CORE + 'math/DerivativesNumDiff.h', CORE + 'systems/linearizer/DynamicsLinearizerNumDiff.h',
       CORE + 'systems/continuous_time/linear/SystemLinearizer.h', CORE + 'systems/discrete_time/linear/DiscreteSystemLinearizer.h',
       CORE + 'systems/continuous_time/linear/LinearSystem.h', CORE + 'systems/continuous_time/linear/LTISystem.h',
       CORE + 'systems/discrete_time/linear/DiscreteLinearSystem.h'],
      [('difference quotients', 'DynamicsLinearizerNumDiff::getDerivativeState/Control, DerivativesNumDiff'), ('linear systems', 'LinearSystem, LTISystem')],
      EQNOTE)

claim('C13', 'Controllers and controlled systems implement their control laws',
      'A controlled system with a controller evaluates the controlled dynamics with exactly the control the controller computes for that state and '
      'time (zero control without one); constant, PID, state-feedback and second-order building blocks implement their defining equations for every '
      'gain, reference, saturation and time (interpolated reference, feedforward and gain of the queried time), and setters, clones and copies take '
      'effect on exactly what they name.',
      ['inputs', 'histories'], 'all gains, references, states, times and call histories',
      'controllers are stateful (integral term, previous reference) and have per-mode branches; tests check step responses of one setting',
      [CORE + 'control/continuous_time/siso/PIDController-impl.h', CORE + 'control/StateFeedbackController.h', CORE + 'control/continuous_time/ConstantController.h',
       CORE + 'systems/continuous_time/ControlledSystem.h', CORE + 'systems/continuous_time/SecondOrderSystem.h', CORE + 'systems/discrete_time/DiscreteControlledSystem.h'],
      [('control laws', 'PIDController::computeControl, StateFeedbackController::computeControl'), ('closed loop', 'ControlledSystem::computeDynamics')],
      EQNOTE)

claim('C10', 'Integrators perform exactly the requested steps of their scheme on the system',
      'Integrating a system performs exactly the requested number of steps (or covers exactly the requested interval or time grid) of the selected '
      'scheme, with the dynamics of the given system evaluated at the stage times of that scheme, starting at the given time with the given step; '
      'logged states and times are the ones visited, event handlers see every step (or every evaluation for substep handlers) and are reset before '
      'each integration, error tolerances reach the adaptive steppers, every integration type selects its own stepper, and symplectic integration '
      'updates positions and velocities of the coupled system.',
      ['inputs', 'configurations', 'histories'], 'all systems, initial states, times, step sizes, step counts, integration types, event handlers',
      'tests compare end states of one smooth system with tolerances; a stage time, an observer time or a reset that is off is invisible for '
      'autonomous systems and single integrations',
      [CORE + 'integration/Integrator-impl.h', CORE + 'integration/internal/SteppersCT.h', CORE + 'integration/internal/SteppersODEInt.h',
       CORE + 'integration/internal/SteppersODEIntDefinitions.h', CORE + 'integration/Observer-impl.h', CORE + 'integration/IntegratorSymplectic-impl.h',
       CORE + 'integration/EventHandlers/SubstepRecorder.h', CORE + 'integration/EventHandlers/MaxStepsEventHandler.h', CORE + 'integration/eigenIntegration.h'],
      [('native steppers', 'StepperEulerCT::do_step, StepperRK4CT::do_step, StepperCTBase::integrate_n_steps'), ('odeint steppers', 'StepperODEInt*'),
       ('integrator', 'Integrator::integrate_*'), ('observers', 'Observer, SubstepRecorder, MaxStepsEventHandler'), ('symplectic', 'IntegratorSymplectic')],
      EQNOTE + '; boost odeint itself is taken as given')

claim('C11', 'Discretised systems and sensitivities match their integration scheme',
      'A discretised system holds the control over the interval and integrates the continuous system from n*dt with K_sim steps of dt/K_sim; the '
      'discrete sensitivities A and B are those of the selected approximation (forward, backward and symplectic Euler, Tustin, matrix exponential) '
      'evaluated at the states and times that approximation prescribes, or the variational equation integrated along the recorded substeps with '
      'the same scheme, step and times; parameter changes and copies carry over to the step sizes, systems and controllers used.',
      ['inputs', 'configurations'], 'all continuous systems, states, controls, stage indices, substep counts, approximation types',
      'tests use time-invariant linear systems with one substep, for which wrong evaluation times or states and wrong step fractions do not show',
      [CORE + 'integration/sensitivity/SensitivityApproximation.h', CORE + 'integration/sensitivity/SensitivityIntegrator.h',
       CORE + 'systems/discrete_time/SystemDiscretizer-impl.h'],
      [('approximations', 'SensitivityApproximation::getAandB'), ('integrated sensitivities', 'SensitivityIntegrator::integrateSensitivity and its right-hand side'),
       ('discretised system', 'SystemDiscretizer::propagateControlledDynamics')], EQNOTE)

claim('C02', 'An LQ problem holds exactly the data and relative bounds it was given',
      'Setting an LQ problem from a time-invariant or linearised quadratic problem stores, at every stage, the given dynamics and cost matrices; '
      'box constraints of states and inputs are stored relative to the nominal trajectory at exactly the stages and indices named, terminal ones at '
      'the terminal stage only; general constraints likewise; changing the number of stages resizes every per-stage container and setZero clears all '
      'of them; asking whether the problem is constrained reflects what was set.',
      ['inputs', 'histories'], 'all problem data, sparsity patterns, nominal trajectories, horizon changes',
      'the tests set one constant problem without or with full box constraints; a wrong stage range, a sign or a missing container only matters for '
      'partial constraints, non-zero nominals or after a horizon change',
      [OPT + 'problem/LQOCProblem.hpp', OPT + 'problem/LQOCProblem-impl.hpp'],
      [('storage', 'LQOCProblem::changeNumStages, setZero'), ('bounds', 'LQOCProblem::setInputBoxConstraint(s), setIntermediateStateBoxConstraint(s), setTerminalBoxConstraints'),
       ('problem data', 'LQOCProblem::setFromTimeInvariantLinearQuadraticProblem')], EQNOTE)

claim('C03', 'The NLOC LQ approximation is taken at the current trajectory, stage by stage',
      'For every stage, the LQ problem of an NLOC iteration consists of the discrete sensitivities of the dynamics at the current state and control of '
      'that stage, the shooting defect as affine term, the cost derivatives at that point and time scaled by dt (terminal: unscaled, at the terminal '
      'state and time), and general constraints and bounds relative to their value at that same point; the LQ solution is then read out as the update '
      'the selected algorithm needs (feedforward, state update, feedback).',
      ['inputs', 'configurations'], 'all systems, costs, constraints, trajectories, horizons, NLOC algorithms',
      'the solver tests check convergence on one or two problems, which tolerates approximations taken at a neighbouring stage or a wrong time',
      [OPT + 'nloc/NLOCBackendBase-impl.hpp', OPT + 'nloc/NLOCBackendST-impl.hpp'],
      [('approximation', 'NLOCBackendBase::executeLQApproximation, computeLinearizedConstraints, initializeCostToGo, NLOCBackendST::computeLQApproximation'),
       ('solution', 'NLOCBackendBase::prepareSolveLQProblem, finishSolveLQProblem, solveFullLQProblem, extractSolution')], EQNOTE)

claim('C04', 'NLOC rollouts, costs and line search judge and accept the same trajectory',
      'A rollout integrates the system shot by shot from the given states with the given (closed loop) controls and records states, shot end points, '
      'substeps and defects at the stages they belong to; the cost of a trajectory is dt times the sum of stage costs plus the terminal cost, constraint '
      'violations likewise; the line search tries alpha_0 n_alpha^i, evaluates each candidate from its own rollout and takes over state, control, '
      'defects, costs and merit of the first accepted candidate together, or nothing; changing horizon, initial state, cost, constraints or settings '
      'resets and resizes everything that depends on it.',
      ['inputs', 'configurations', 'histories'], 'all systems, costs, constraints, trajectories, shot lengths, step lengths, algorithms',
      'a candidate that is evaluated with stale data, or accepted only in part, still lets the few tested problems converge',
      [OPT + 'nloc/NLOCBackendBase-impl.hpp', OPT + 'nloc/NLOCBackendBase.hpp', OPT + 'nloc/NLOCBackendST-impl.hpp'],
      [('rollout', 'NLOCBackendBase::rolloutSingleShot, rolloutShotsSingleThreaded, computeSingleDefect'),
       ('cost and violation', 'computeCostsOfTrajectory, compute*ConstraintErrorOfTrajectory'),
       ('line search', 'lineSearch, executeLineSearch, acceptStep, NLOCBackendST::performLineSearch'),
       ('problem changes', 'setInitialGuess, changeTimeHorizon, changeInitialState, change*, configure, reset')], EQNOTE)

claim('C19', 'A settings file configures exactly the settings it names',
      'Solver, line search, LQ, MPC, multiple shooting, NLP, automatic differentiation and filter settings start from their documented defaults; '
      'loading a file sets each field from the entry of its own name in the given namespace; an optional entry that is missing leaves the value '
      'unchanged, a mandatory one that is missing raises an error; names of algorithms, integrators, approximations and the other enumerations '
      'select the enumerator of that name and an unknown name never selects another one silently; matrices are read entry by entry with their '
      'scaling, entries that are not listed being zero; parametersOk accepts exactly the documented combinations; the algorithm table says for '
      'each algorithm whether it is closed loop and whether it is single shooting.',
      ['inputs', 'configurations'], 'all settings files: present and missing entries, names, namespaces; all enumerators and field values',
      'the tests load one file or none; a field loaded from a neighbouring key, a default that changes or a missing entry that resets a field '
      'stays invisible',
      [OPT + 'solver/NLOptConSettings.hpp', OPT + 'mpc/MpcSettings.h', OPT + 'dms/dms_core/DmsSettings.h', OPT + 'nlp/solver/NlpSolverSettings.h',
       OPT + 'filter/FilterSettings.h', CORE + 'math/DerivativesCppadSettings.h', CORE + 'common/InfoFileParser.h'],
      [('scalars and matrices', 'InfoFileParser.h: loadScalar, loadScalarOptional, loadMatrix'),
       ('solver settings', 'NLOptConSettings, LineSearchSettings, LQOCSolverSettings: constructors, load, parametersOk'),
       ('other settings', 'mpc_settings, DmsSettings, NlpSolverSettings, IpoptSettings, SnoptSettings, DerivativesCppadSettings, filter settings')],
      EQNOTE)

claim('C22', 'The NLP interface hands the solver consistent values, bounds and sparsity',
      'For any set of constraints and decision variables, the constraint container evaluates every constraint once, after preparing it, at the '
      'offset of the constraints before it; values, bounds, counts, Jacobian entries and row indices all use that one order; diagonal and block '
      'index patterns enumerate exactly their entries; a new decision vector is stored and the problem updated before anything is evaluated, and '
      'only then; every IPOPT callback maps its buffers with the length it is given and fills each from the matching part of the program (bounds '
      'lower and upper, multipliers, initial guess, values or pattern); initial guesses, bounds and solutions are stored and returned unmixed; a part '
      'of the program that is missing is reported by an exception.',
      ['inputs', 'configurations', 'histories'], 'all constraint sets and sizes, decision vectors, bounds, multipliers, callback arguments and orders',
      'no test of this suite solves a nonlinear program (it needs IPOPT or SNOPT); a shifted row index or swapped bound still lets many problems converge',
      [OPT + 'nlp/'],
      [('decision variables', 'OptVector'), ('patterns', 'DiscreteConstraintBase::genDiagonalIndices, genBlockIndices'),
       ('constraints', 'DiscreteConstraintContainerBase'), ('program', 'Nlp'), ('callbacks', 'IpoptSolver::eval_*, get_*, finalize_solution')],
      EQNOTE)

claim('C24', 'Every NLOC iteration approximates, solves and updates in the order it promises',
      'One iteration of a single or multiple shooting algorithm first rolls out (first iteration or MPC), then sets the constraints and the LQ '
      'approximation of every stage exactly once, solves the LQ problem, extracts the update, performs the step and counts the iteration, whether it is '
      'run at once or split into prepare and finish; the solver picks the algorithm family its settings name, refuses unconfigured or uninitialised '
      'use, stops when no better solution is found or the iteration limit is reached, and forwards every problem change to the backend.',
      ['histories', 'configurations'], 'all algorithms, horizons, shot lengths, iteration numbers, sequences of calls',
      'tests run complete solves; the split into prepare and finish phases, and stage ranges that depend on the shot length, are sampled at one setting',
      [OPT + 'nloc/algorithms/SingleShooting-impl.hpp', OPT + 'nloc/algorithms/MultipleShooting-impl.hpp', OPT + 'solver/NLOptConSolver-impl.hpp'],
      [('iterations', 'SingleShooting/MultipleShooting::prepareIteration, finishIteration, prepareMPCIteration, finishMPCIteration'),
       ('solver', 'NLOptConSolver::solve, setAlgorithm, configure and forwarders')], EQNOTE)

claim('C05', 'Cost terms return their value and the exact derivatives of that value',
      'Linear, mixed, quadratic, quadratic tracking, multiplicative quadratic and smooth-absolute-value cost terms return at every state, control and '
      'time the function they are documented to be, and their first and second state, control and mixed derivatives are the derivatives of exactly that '
      'function; constructors, copies, setters, reference updates and configuration files set the weights and references of the same name; time '
      'activations (single, periodic, linear ramp, RBF-Gauss) and barrier activations are active in the documented intervals, return the documented '
      'factor and load the parameters of the same name.',
      ['inputs', 'configurations'], 'all states, controls, times, weights (symmetric where the derivative requires it), references, activation parameters, '
      'files',
      'the tests compare derivatives numerically at one random point of a few terms, and never with references or activations that change',
      [OPT + 'costfunction/term/', CORE + 'common/activations/'],
      [('terms', 'TermLinear, TermMixed, TermQuadratic, TermQuadTracking, TermQuadMult, TermSmoothAbs: evaluate, *Derivative, loadConfigFile'),
       ('activations', 'SingleActivation, PeriodicActivation, LinearActivation, RBFGaussActivation, BarrierActivation: isActive, computeActivation')], EQNOTE)

claim('C06', 'A cost function is the activated sum of its terms at the current point',
      'An analytical cost function evaluates, and differentiates, to the sum over its intermediate (final) terms of the term at the current state, '
      'control and shifted time, each weighted by its time activation exactly once and skipped when inactive; adding, finding and updating terms acts '
      'on exactly the terms named; a simple quadratic cost function is 1/2 dx^T Q dx + 1/2 du^T R du with its final counterpart and their derivatives; '
      'copies have the same point, time shift, weights and references and own copies of the terms.',
      ['inputs', 'histories'], 'all sets of terms, activations, states, controls, times, time shifts, sequences of updates',
      'tests use always-active terms and one evaluation point; double weighting by an activation, a time shift that is dropped or a term shared with a '
      'copy stay invisible',
      [OPT + 'costfunction/'],
      [('base', 'CostFunction, CostFunctionQuadratic::evaluateIntermediateBase and friends'), ('analytical', 'CostFunctionAnalytical'),
       ('quadratic', 'CostFunctionQuadraticSimple')], EQNOTE)

claim('C07', 'Constraints: value, bounds, Jacobians and sparsity patterns agree',
      'Every constraint term (state and control box, terminal, obstacle, and user terms through their base) returns its documented value, bounds and '
      'Jacobians, and its sparse Jacobian lists exactly the entries of the dense one in the order of its sparsity pattern. A constraint container '
      'stacks value, bounds, dense and sparse Jacobians and patterns of its intermediate (terminal) terms in the order they were added, evaluates all '
      'of them at the current state, control and time, counts exactly the stacked rows and non-zeros, and refuses evaluation before initialisation; a '
      'switched container uses the constraints of the phase active at the current time; copies own copies of the terms.',
      ['inputs', 'configurations', 'histories'], 'all sets of terms, sparsity selections, bounds, states, controls, times, mode sequences',
      'tests stack two or three terms with one sparsity pattern; an off-by-one block offset, a pattern in another order than the values, or a term '
      'evaluated at a stale point only shows with other stackings or a sparse solver',
      [OPT + 'constraint/'],
      [('terms', 'ConstraintBase, BoxConstraintBase, StateConstraint, ControlInputConstraint, TerminalConstraint, ObstacleConstraint'),
       ('containers', 'ConstraintContainerBase, ConstraintContainerAnalytical, LinearConstraintContainer, SwitchedLinearConstraintContainer')], EQNOTE)

claim('C15', 'MPC shifts time, horizon and policy consistently in every iteration',
      'In every MPC cycle the time horizon follows the chosen strategy, forward prediction starts at the time since the last solve and ends after the '
      'applied delay, both limited to the previous horizon, delays are the measured ones only when measuring is on, the warm start drops exactly the '
      'elapsed stages and is extended or cut to the new horizon for states, controls and gains alike, the state is predicted with the given controller '
      'or the previous policy, and the returned policy carries the time stamp its first element refers to; settings and strategies take effect '
      'everywhere they are used and a reset restarts all clocks.',
      ['histories', 'configurations'], 'all settings, horizon modes, internal and external clock readings, sequences of prepare and finish calls',
      'tests run one closed loop with external timing starting at time zero and compare the final state; shifted time stamps and stale settings go '
      'unnoticed there',
      [OPT + 'mpc/', CORE + 'common/Timer.h', CORE + 'common/ExternallyDrivenTimer.h'],
      [('cycle', 'MPC::prepareIteration, finishIteration, doForwardIntegration'), ('time keeping', 'MpcTimeKeeper, MpcTimeHorizon'),
       ('warm start', 'StateFeedbackPolicyHandler, PolicyHandler')], EQNOTE)

claim('C16', 'Kalman filters compute exactly their textbook predictions and updates',
      'The extended, steady-state and unscented Kalman filters predict the estimate with the system model over the given step from the given time, '
      'propagate the covariance with the derivatives at the previous estimate, and correct with the gain of the innovation covariance and the '
      'measurement predicted at the given time; sigma points, their weights, means and (cross) covariances are those of the scaled unscented '
      'transform; all filter parameters come from the constructor arguments or settings; linear measurement models, simulated continuous-time system '
      'models and input-disturbed systems and controllers evaluate their defining equations.',
      ['inputs', 'histories'], 'all models, noise covariances, estimates, measurements, controls, steps and times',
      'the tests run one filter on one time-invariant system from zero and compare with a tolerance; a wrong sign of a covariance term, an ignored time '
      'or an uninitialised weight survives',
      [OPT + 'filter/'],
      [('extended', 'ExtendedKalmanFilter::predict, update'), ('steady state', 'SteadyStateKalmanFilter::predict, update'),
       ('unscented', 'UnscentedKalmanFilter::predict, update and their steps'), ('models', 'LTIMeasurementModel, CTSystemModel, InputDisturbedSystem, DisturbedSystemController')],
      EQNOTE)

claim('C17', 'LQR design solves the Riccati equations it is documented to solve',
      'Infinite-horizon LQR returns K = R^-1 B^T P with P obtained from the Hamiltonian matrix [A, -B R^-1 B^T; -Q, -A^T] (full or diagonal R), the '
      'iterative solver returns the stabilising block solution from its converged matrix sign iteration or reports failure after the iteration limit; '
      'the discrete algebraic Riccati solver iterates the Riccati difference equation until the change is below the tolerance and throws on '
      'divergence or when the limit is reached; the finite-horizon design recurses backwards from the terminal cost through every stage with that '
      'stage\'s linearisation, cost and time, and refuses inconsistent lengths.',
      ['inputs', 'configurations'], 'all weights, system matrices, tolerances, iteration limits, reference trajectories, time steps',
      'tests compare a few random systems between the solvers; a wrong stage index, time or block that agrees for time-invariant data is invisible',
      [OPT + 'lqr/'],
      [('infinite horizon', 'LQR::compute, CARE::solve, solveSchurIterative, DARE::computeSteadyStateRiccatiMatrix'),
       ('Riccati difference equation', 'DynamicRiccatiEquation::iterateNaive, iterateRobust'), ('finite horizon', 'FHDTLQR::designController, solve, linearizeModel')],
      EQNOTE)

claim('C14', 'Multiple shooting transcribes the optimal control problem exactly',
      'For any horizon, number of shots and node values, direct multiple shooting builds the grid t_i = i T / N, lays out state and control of each '
      'node disjointly in the decision vector, and reads and writes every node through that layout; the control is held or linearly interpolated '
      'between nodes with the matching derivatives; the initial constraint fixes the first node to the current initial state and shot i is '
      'constrained by node i+1 minus its integrated end state; Jacobian values, number of nonzeros and sparsity pattern agree entry by entry; path '
      'and terminal constraints are evaluated at every node with their bounds, Jacobian and pattern in one order; the cost and its gradient are '
      'the weighted node sum or the integrated shot cost plus the terminal cost; shots are integrated again exactly when the decision vector has '
      'been updated.',
      ['inputs', 'configurations', 'histories'], 'all horizons, shot counts, node values, splines, constraint containers, cost functions, orders of evaluation',
      'no test of this suite runs direct multiple shooting (it needs IPOPT or SNOPT); where it is run, one horizon and one constraint set are solved '
      'to a tolerance, which a wrong Jacobian entry or a stale shot still reaches',
      [OPT + 'dms/'],
      [('grid and layout', 'TimeGrid, OptVectorDms'), ('control', 'ZeroOrderHoldSpliner, LinearSpliner, ControllerDms'),
       ('constraints', 'InitStateConstraint, ContinuityConstraint, ConstraintDiscretizer, ConstraintsContainerDms'),
       ('shots and cost', 'ShotContainer, SensitivityIntegratorCT, CostEvaluatorSimple, CostEvaluatorFull')], EQNOTE)

claim('C25', 'The multi-threaded backend does every stage once and loses no wake-up',
      'NLOCBackendMP gives the result of the single-threaded definition for any number of threads: a range of stages is handed out by one counter, '
      'each stage of the range is linearised or rolled out by exactly one worker with that worker\'s own instances of system, cost, constraints and '
      'integrators, and is counted only when done; the caller does a single stage itself with its own instance and otherwise returns only after all '
      'stages are done; the parallel line search tries the exponents in order, keeps the largest accepted step with its own trajectories, costs and '
      'norms, and ends when all larger steps have been processed; every wait re-checks its condition, no notification can be missed between a '
      'check and a wait, locks are released on every path and never acquired in opposite orders; each task makes the workers run its own stage '
      'function; destruction ends and joins all workers.',
      ['schedules', 'inputs', 'configurations'], 'all schedules of the workers with respect to locks, waits and notifications; all thread counts, stage ranges, step sizes and settings',
      'the tests run one problem with 4 threads and see one schedule per run; a missed wake-up or an overwritten line search result needs a particular interleaving',
      [OPT + 'nloc/NLOCBackendMP.hpp', OPT + 'nloc/NLOCBackendMP-impl.hpp'],
      [('stages', 'computeLQApproximation, rolloutShots and their workers'), ('line search', 'performLineSearch, lineSearchWorker'),
       ('threads', 'launchWorkerThreads, threadWork, shutdownRoutine')],
      'Functional part as for the other properties, with everything the workers change unknown after a wait. Locks, condition variables, shared members '
      'and task dispatch: path-sensitive lockset / typestate analysis of all member functions with inlined calls. Data accessed inside the base '
      'class by stage number is assumed disjoint between stages (C03 and C04 decide what a stage writes).',
      'static analysis: value-graph normal forms compared with a reference; path-sensitive lockset, lock-order and notification typestate analysis')

na('C26', 'The nonlinear optimal control solvers converge',
   'GNMS, iLQR, SQP and direct multiple shooting converge to a local optimum of a feasible, smooth problem within their iteration limit.',
   ['inputs', 'configurations'], 'all problems, initial guesses and settings', 'tests run a few problems with known solutions',
   [OPT + 'nloc/', OPT + 'dms/'], [('iterations', 'NLOCBackendBase, GNMS, iLQR, DmsSolver')],
   'depends on the numerical behaviour of user-supplied dynamics and costs over unbounded iterations; no static argument over the source bounds it. '
   'What each iteration computes is decided by C01 to C04, C14 and C25.')
na('C27', 'Results are accurate to rounding',
   'The computed values differ from the exact ones by no more than a small multiple of the rounding error of the problem.',
   ['inputs'], 'all floating-point inputs', 'tests compare a few values with a tolerance',
   [CORE, OPT], [('linear algebra', 'all numerical code')],
   'the analysis works over exact arithmetic (normal forms over the rationals); a rounding analysis of iterative linear algebra on unbounded data is out of reach of a static argument here. '
   'Adaptive integrators and Eigen/LAPACK decompositions are library code outside the repository.')
na('C28', 'Just-in-time compiled derivatives equal the functions they were generated from',
   'DerivativesCppadJIT and the code generated for ct_models evaluate the Jacobian and Hessian of the function they were generated from.',
   ['inputs', 'configurations'], 'all functions and evaluation points', 'tests compare a few functions at random points',
   [CORE + 'math/'], [('code generation', 'DerivativesCppadJIT, ct_core/templates')],
   'the deciding artefact is source text produced at run time by CppADCodeGen, which is not installed, so neither the generator nor its output can be parsed here.')
