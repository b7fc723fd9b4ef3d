prop("C08", "A solution is the exact concatenation of its named parts",
     "The parts of a solution structure occupy consecutive, disjoint ranges in the order of their definition which cover all variables; reading or writing a part of a solution or of a matrix touches exactly these variables. "
     "A guess made from an older solution copies each part of the same name and size to its present place and is zero elsewhere, whatever the order and number of parts in the two structures; an access beyond the solution is refused with an exception.",
     ["inputs", "histories"], "for all sequences of structure definitions, initializations, guesses and accesses, including empty and missing parts",
     "No test uses more than the fixed structure of one controller, guesses from solutions of another structure are not tested at all.",
     [CORE + "solution.h", CORE + "control_problem.h"],
     [("SolutionStructure::addSolutionPart, getSolutionPartLocation, getMatrixPart", CORE + "solution.h"), ("Solution::initialize(struct, old)", CORE + "solution.h"), ("ControlProblem::guessSolution", CORE + "control_problem.h")],
     ["locations, contents and sizes of solutions and parts"], TLAREPLAY % "SolutionParts", NOTE % "4 names, parts of <= 3 variables, 20 operations on 2 solutions")
prop("C09", "The solver interface passes guesses, parameters and status faithfully",
     "Every call of a solver passes to it exactly the solution and active set guesses given by the caller, applies the parameters given in the call (also to the following calls), reports the status of the solver, returns the active set if asked, and throws if and only if the solution failed and failures are configured to be fatal. "
     "Forms of problems which a QP solver does not support (more than two levels, inequalities in the objective level) are handled as configured.",
     ["histories", "configurations"], "for all sequences of calls with any combination of guesses, parameters, outcomes and shapes of the hierarchy",
     "The solvers used by the tests never fail, and most of the entry points are not called at all.",
     [CORE + "solver.h", CORE + "solution.h"],
     [("SolverBase::solve variants", CORE + "solver.h"), ("QPSolverMixin", CORE + "solver.h")],
     ["calls received by a recording solver, status, exceptions"], TLAREPLAY % "SolverLife", NOTE % "all calls up to depth 3 exhaustively, sequences of 16 calls sampled")
prop("C11", "Predefined tasks express what they are named after at every re-forming",
     "Forming a task that zeroes all, named or selected variables yields exactly one row per variable, weighted with the current gain, at the current place of the variables, after any history of changes of gain, selection or structure of the solution; the infeasible task is infeasible for every point.",
     ["histories", "inputs"], "for all sequences of gain, selection and structure changes between forms",
     "Tests form each task once with constant parameters.",
     [CORE + "task_generic.h", CORE + "task.h"],
     [("TaskZeroVariables::form, TaskZeroSelectedVariables::form, TaskInfeasibleInequality::form", CORE + "task_generic.h")],
     ["rows exported by a level made of the task"], TLAREPLAY % "GenericTasks", NOTE % "3 solution parts of <= 3 variables, 12 operations")
RB = "core/include/rigid_body/"
WK = "core/include/walking/"
prop("C12", "Condensed dynamics predict the same trajectory as stepping the dynamics",
     "For any sequence of linear (time-varying or time-invariant) dynamics over any horizon, the condensed matrices computed by each of the condensing functions (block, dense, time-invariant; states and outputs; one or several groups of controls) map the initial state and the controls to exactly the states and outputs obtained by stepping through the dynamics one interval at a time, and depend on nothing computed before in the same matrices. "
     "Inconsistent numbers of matrices are refused with an exception.",
     ["inputs", "histories"], "for all matrices, horizons, sizes and sequences of calls with reused output matrices",
     "The tests compare one fixed horizon with stored numbers; most of the variants and all combinations with reused matrices are never called.",
     [CORE + "control_problem.h", "core/include/eigentools/blockmatrix_base.h"],
     [("MPC::condense, condenseOutput, condenseTimeInvariant", CORE + "control_problem.h")],
     ["condensed matrices"], TLAREPLAY % "Condense", NOTE % "horizon <= 5, <= 3 states, controls and outputs, integer data")
prop("C13", "Triple integrator models reproduce the exact motion",
     "For every control parametrization (jerk, final acceleration, final velocity, final position), duration, state and control, the discrete model gives the exact solution of the triple integrator with constant jerk at the end of the interval, at any intermediate time, and the exact jerk; the controlled quantity takes the value of the control at the end of the interval.",
     ["inputs"], "for all states, controls, durations, intermediate times and numbers of integrators",
     "The tests compare a few stored numbers and check consistency of two of the functions for one state.",
     [RB + "triple_integrator.h", "core/include/eigentools/eigentools.h"],
     [("getA*/getB*/getAs*/getBs*/getD*/getE*", RB + "triple_integrator.h")],
     ["A x + B u, As x + Bs u, D x + E u"], TLAREPLAY % "Integrator", NOTE % "exact rational durations and intermediate times, 1-3 integrators, integer states")
prop("C14", "The point mass model obeys the CoM/CoP dynamics",
     "For any CoM height, duration and state, the model with linearly moving CoP yields the exact solution of the linear pendulum at the end of the interval and at any intermediate time; the CoP at the end equals the control, the output matrices give the CoP, its velocity and the capture point velocity of the state, and conversions between the vector and the structure form of the state are inverse to each other.",
     ["inputs"], "for all states, CoP motions, durations and heights",
     "Not tested at all (only indirectly by stored output of one controller, whose solvers are not available in the default build).",
     [WK + "point_mass_model_6z.h"],
     [("PointMassModel6z", WK + "point_mass_model_6z.h")],
     ["predicted states and outputs"], TLAREPLAY % "PointMass", NOTE % "durations k ln2/omega (exact numbers a + b ln 2), 5 natural frequencies")
prop("C15", "Interpolated trajectories meet their boundary conditions and are consistent",
     "A cubic polynomial starts and ends with the given positions and velocities; a foot trajectory moreover passes the given step height in the middle of the step with zero vertical velocity. Velocity and acceleration are derivatives of the returned position with respect to the same time. "
     "Times outside of the unit interval, unsupported quantities and steps which end above the step height are refused with an exception without changing the trajectory.",
     ["inputs", "histories"], "for all boundary conditions, times and sequences of (re)initializations",
     "Not tested at all.",
     [RB + "cubic_polynomial.h", WK + "foot_trajectory.h"],
     [("CubicPolynomial1D", RB + "cubic_polynomial.h"), ("Simple3DFootTrajectory", WK + "foot_trajectory.h")],
     ["positions, velocities, accelerations, jerk"], TLAREPLAY % "Cubic", NOTE % "integer boundary conditions, times k/8, 20 operations")
prop("C16", "Rotations are represented, compared and integrated exactly",
     "Conversions between Euler angles (both conventions) and matrices preserve the rotation in both directions, rotation errors carry the current orientation to the reference, the transformation of Euler rates yields the angular velocity, integration of an angular velocity yields a rotation matrix rotated about the given axis by the given angle, and the cross product matrix implements the cross product. Unsupported conventions are refused with an exception.",
     ["inputs"], "for all orientations, angular velocities and durations",
     "One test converts one triple of angles; the other functions are not tested.",
     [RB + "rotary_state.h", RB + "rigid_body_state.h", "core/include/eigentools/cross_product.h"],
     [("convertEulerAnglesToMatrix, convertMatrixToEulerAngles, getRotationError*, integrateAngularVelocity*", RB + "rotary_state.h")],
     ["matrices and vectors returned"], TLAREPLAY % "Rotation", NOTE % "angles with rational sine and cosine (13 per axis), including gimbal lock and multiples of 90 degrees")
prop("C17", "The stance machine performs the specified walk",
     "From supported parameters the machine goes through exactly the walk they describe: the first stance, then for each step a transitional double support (TDS) followed by a single support on alternating feet, a final TDS and double support, in which it stays. Time is never lost or gained: after any sequence of time shifts the machine is in the stance (and at the time within it) which corresponds to the total time, a stance being left as soon as its duration is over; "
     "the remaining number of steps, preceding stances and the beginning of a TDS are reported correctly. Without a first single support there are no steps; unsupported parameters are refused with an exception.",
     ["histories", "configurations"], "for all parameters and all sequences of time shifts, stance shifts and re-parametrizations",
     "Not tested except by one recorded walk with default durations, whose solvers are not available.",
     [WK + "stance_finite_state_machine.h"],
     [("StanceFiniteStateMachine::finalize, shiftTime, shiftStance, getNextStance", WK + "stance_finite_state_machine.h")],
     ["state of the machine after every operation"], TLAREPLAY % "StanceOps, Stance", NOTE % "all histories of up to 5 operations for 54 walks; sampled histories of 24 operations, <= 5 steps, durations 0..12")
prop("C18", "A preview of stances is what the machine will do",
     "A preview lists the stances through which the machine will actually go during the requested time, with the time spent in each, beginning with the rest of the current one; it covers the requested time exactly unless the walk is over before (then the too short final double support is left out), a TDS at the end is followed by the stance to which it leads, and making a preview does not change the machine.",
     ["histories", "inputs"], "for all states of the machine and all preview durations, including zero",
     "Only one recorded walk, not available in the default build.",
     [WK + "stance_finite_state_machine.h"],
     [("StanceFiniteStateMachine::previewStances, getNextStance", WK + "stance_finite_state_machine.h")],
     ["previewed stances, state of the machine"], TLAREPLAY % "StanceOps, Stance", NOTE % "as C17, preview durations 0..32")
WP = "modules/wpg04/include/wpg04/"
prop("C19", "The preview horizon of the walking controller follows the walk",
     "At any moment of any walk the horizon has the configured number of intervals, which follow the stances of the walk without gaps: the first one ends at the next multiple of the sampling time (or with the current TDS), each future TDS is one interval which begins a variable step, other intervals last one sampling period. Every interval refers to the support, orientation, velocity reference and CoP bounds, and every step to the bounds of the foot, which the walk prescribes for it. "
     "When the rest of the walk is shorter than the horizon the controller stops. The length of the horizon, references and limits may be changed at any time.",
     ["histories", "configurations"], "for all walk and sampling parameters (TDS not longer than the sampling time, stances divisible by it) and all moments",
     "One recorded walk with sampling equal to subsampling, not available in the default build.",
     [WP + "preview_horizon.h", WP + "mpc_wpg.h", WK + "stance_finite_state_machine.h", WK + "robot_foot_parameters.h"],
     [("PreviewHorizon::form, previewStates, getConstraints", WP + "preview_horizon.h"), ("RobotFootParameters::finalize", WK + "robot_foot_parameters.h")],
     ["intervals, variable steps, rotations, bounds, references, status"], TLAREPLAY % "StanceOps, Walk", NOTE % "horizon <= 6 intervals, <= 4 steps, up to 30 control cycles, rotations with rational sine and cosine")
prop("C20", "The walking controller predicts what the robot would do",
     "For any solution (steps and CoP positions in local frames), the predicted footsteps, CoP, CoP velocity and CoM states are those obtained by placing each step relative to the preceding support and simulating the pendulum interval by interval from the current state; the CoM state at any time within the horizon lies on this trajectory, times beyond it are refused.",
     ["inputs", "histories"], "for all states, walks, moments and solutions",
     "Tests compare final states of one walk with recorded numbers; solvers they need are not available in the default build.",
     [WP + "mpc_wpg.h", WP + "model.h", WK + "point_mass_model_6z.h", CORE + "control_problem.h"],
     [("MPCforWPG::update, parseSolution, getCoMState", WP + "mpc_wpg.h"), ("formRotationMatrices, formFootPosMatrices", WP + "mpc_wpg.h")],
     ["profiles, states at given times"], TLAREPLAY % "StanceOps, Walk", NOTE % "as C19; exact numbers a + c / ln 2 (exp(omega tick) = 2)")
prop("C21", "Tasks of the walking controller mean what they are for",
     "For every solution, the residuals of the tasks are, scaled by their gains, the deviation of the predicted CoM velocity from the reference, the predicted CoP velocity, the CoP displacement, and the final velocity of the capture point; the bounds on variables keep the CoP within the support and the steps within reach (or fix them). Guesses of active sets are those of the previous cycle moved by one interval / step.",
     ["inputs", "histories"], "for all states, walks, moments and solutions",
     "As above.",
     [WP + "task_comvelocity.h", WP + "task_copbounds.h", WP + "task_copposition.h", WP + "task_copvelocity.h", WP + "task_footstepbounds.h", WP + "task_terminalconstraint.h", WP + "mpc_wpg.h"],
     [("form, guessActiveSet of the tasks", WP + "task_*.h"), ("RobotFootParameters", WK + "robot_foot_parameters.h")],
     ["rows exported by a hierarchy of the tasks, active set guesses"], TLAREPLAY % "StanceOps, Walk", NOTE % "as C19")
prop("C22", "The next state of the walking robot follows the solution and the walk",
     "After each cycle the CoM is where the predicted motion has it one sampling period later; feet never move except that the swing foot lands exactly where the solution placed it, with the orientation of the plan, when the TDS begins; in double support feet are aligned. The position of the support follows from the stance. The next guess of the solution is the last solution moved by one interval and, when a step is over, by one step.",
     ["histories"], "for all walks, moments, sampling parameters and solutions, including several cycles within one TDS",
     "As above.",
     [WP + "mpc_wpg.h", WP + "model.h", WP + "model_state.h"],
     [("MPCforWPG::getNextModelState, getFootLandingState, guessSolution", WP + "mpc_wpg.h"), ("Model::updateState, determineSupportPosition", WP + "model.h")],
     ["state of the model after updateState"], TLAREPLAY % "StanceOps, Walk", NOTE % "as C19")
PM = "modules/pepper_mpc/include/pepper_mpc/"
PNOTE = NOTE % "horizon <= 5 intervals, queues of <= 4 entries with durations in ms, up to 12 control cycles, orientations with rational sine and cosine, exact rational states"
prop("C23", "The horizon of the wheeled robot follows the queue of motion parameters",
     "For any queue of motion parameters the controller runs if and only if the queue covers the whole horizon; each interval has the parameters of the entry which is valid at its end, the orientation accumulated from the angular velocities, the reference velocity turned with it, and masses, heights and bounds of the robot. Shifting moves the queue by exactly the requested (or the sampling) time: at any later time the same parameters are valid as before; entries of unlimited duration last for ever, and a refused update does not shift anything. The length of the horizon and other parameters of the controller may be changed at any time.",
     ["histories", "inputs"], "for all queues (including empty ones, zero durations, durations which are not multiples of the sampling time), single parameters, and sequences of updates and shifts",
     "Recorded regression data for constant queues; the solvers they need are not available in the default build.",
     [PM + "preview_horizon.h", PM + "mpc_mg.h", PM + "common.h"],
     [("PreviewHorizon::form (single, deque)", PM + "preview_horizon.h"), ("MPCforMG::shift, updateAndShift", PM + "mpc_mg.h"), ("RobotParameters::finalize", PM + "common.h")],
     ["status, intervals, remaining durations of the queue"], TLAREPLAY % "Pepper", PNOTE)
prop("C24", "The wheeled robot controller predicts what the robot would do",
     "For any solution the predicted states of base and body, the base jerk and the CoP at the ends of all intervals are those obtained by simulating the motion interval by interval from the current state, whose base reaches the given velocity at the end of each interval and whose body moves with the given jerk; the state at any time of the horizon lies on this trajectory, with the orientation turning uniformly; times beyond the horizon are refused.",
     ["inputs", "histories"], "for all states, masses, heights, plans, solutions and changes of the parameters of the controller",
     "As C23; states within an interval are not tested at all.",
     [PM + "mpc_mg.h", PM + "two_point_mass_model.h", PM + "model.h", RB + "triple_integrator.h"],
     [("MPCforMG::updateMatrices, parseSolution, getModelState", PM + "mpc_mg.h"), ("TwoPointMassModel", PM + "two_point_mass_model.h")],
     ["profiles, states at given times"], TLAREPLAY % "Pepper", PNOTE)
prop("C25", "Tasks of the wheeled robot controller mean what they are for",
     "For every solution, the residuals of the equality tasks are, scaled by their gains, the deviations of base velocity and position from their references, the base and body jerk, the CoP displacement and the displacement of the body with respect to the base; the inequality tasks hold exactly if base velocity, base acceleration, CoP and body position with respect to the turned base are within their bounds.",
     ["inputs", "histories"], "for all states, plans, bounds, gains and solutions",
     "As C23.",
     [PM + "task_*.h", PM + "mpc_mg.h"],
     [("form of the tasks", PM + "task_*.h"), ("MPCforMG::updateMatrices", PM + "mpc_mg.h")],
     ["residuals and distances to the bounds in the rows exported by a hierarchy of the tasks"], TLAREPLAY % "Pepper", PNOTE)
prop("C26", "The wheeled robot control loop continues where the prediction ends",
     "The next model state is the predicted state at the end of the first interval, with its orientation, heights and masses; it does not matter whether the solution was parsed before. The guess of the next solution is the last one moved by one interval with zeros at the end, guesses of active sets are moved in the same way (or inactive if the loop is faster than the intervals). States constructed from heights, masses and positions have these heights, masses and positions, and the CoP reported by the model is the one of its state.",
     ["histories"], "for all sequences of control cycles, disturbances and changes of plan",
     "As C23; masses and heights are never varied.",
     [PM + "mpc_mg.h", PM + "model.h", PM + "model_state.h", PM + "task_*.h"],
     [("MPCforMG::getNextModelState, guessSolution", PM + "mpc_mg.h"), ("guessActiveSet of the tasks", PM + "task_*.h"), ("ModelState, Model", PM + "model_state.h")],
     ["state of the model, guesses"], TLAREPLAY % "Pepper", PNOTE)
CF = "core/include/config.h"
MP = "bridges/config_msgpack/interface/config_msgpack/"
CNOTE = NOTE % "all kinds of entries, 16 classes of the library and 4 of the harness, up to 3 objects, files of <= 3 sections; numbers with up to 52 significant bits, nan and infinities"
prop("C27", "Configurable objects survive being written and read",
     "Whatever a configurable object contains (numbers of all kinds including extreme ones, text, enumerations, vectors and matrices of any size, nested objects, parents), writing it to a file or a section of a file and reading it back by any of the entry points gives an object with the same contents, and the quantities which the class derives from its entries are those of these contents.",
     ["inputs", "histories"], "for all contents and sequences of writing and reading by any entry point (named section or default one, file name or open writer / reader, constructor)",
     "The configuration tests write and read one object with fixed contents; square symmetric data hide the order of matrix elements.",
     [CF, "core/include/config/define_accessors.h", MP + "writer.h", MP + "reader.h"],
     [("ConfigurableBase, writeConfig, readConfig", CF), ("Writer::writeScalar, writeCompound", MP + "writer.h"), ("Reader::readEntry, readScalar, readCompound", MP + "reader.h"), ("finalize() of the configurable classes", "core/include/walking/robot_foot_parameters.h")],
     ["contents of the file", "entries and derived quantities of the object"], TLAREPLAY % "Config", CNOTE)
prop("C28", "Configuration files made by a person are understood or refused, never misread",
     "The order of sections and entries and unknown additional entries in a file do not matter. In the strict mode reading fails with an exception if an entry is missing; in the relaxed mode a missing entry takes the default of its class, no matter what the object contained before. An entry of a wrong type or size, and a combination of parameters which is not valid, is refused with an exception in both modes. A reader can be used for other sections after a refusal.",
     ["inputs", "histories"], "for all files obtained by removing, adding, moving, renaming, resizing and retyping entries and sections, in both modes and by all entry points",
     "Tests read complete files only.",
     [CF, "core/include/config/define_accessors.h", MP + "reader.h", "core/include/kktsolver.h"],
     [("readConfig, strictness, setDefaults, finalize", CF), ("Reader::descend, readEntry, readScalar, readCompound", MP + "reader.h")],
     ["success or exception", "contents of the object"], TLAREPLAY % "Config", CNOTE + "; one key occurs once in a map; a reader is not reused after an exception")
prop("C29", "A hierarchy described by a configuration file is the hierarchy which is built",
     "A hierarchy of tasks constructed from a file has the tasks, levels, identifiers and parameters given there, tasks with simple bounds after the general ones of their level; a hierarchy written to a file is constructed again identically. Descriptions which are incomplete or inconsistent (missing lists, lists of different lengths, classes unknown to this kind of hierarchy, missing parameters, parameters of wrong sizes) are refused with an exception.",
     ["inputs", "histories"], "for all hierarchies made of the tasks available to the factory and all edits of their descriptions",
     "One fixed hierarchy is read in the tests.",
     [CORE + "configurable_optimization_problem.h", CORE + "hierarchy.h", CORE + "task.h"],
     [("ConfigurableOptimizationProblem", CORE + "configurable_optimization_problem.h"), ("OptimizationProblem::pushTask, reset", CORE + "hierarchy.h"), ("entries of the tasks", CORE + "task_generic.h"), ("hierarchies of the modules", "modules/pepper_ik/include/pepper_ik/configurable_optimization_problem.h")],
     ["tasks on all levels with their classes, identifiers and parameters"], TLAREPLAY % "ConfigProblem", NOTE % "31 classes of tasks (common, walking, wheeled base, inverse kinematics), hierarchies of the four kinds, up to 4 levels, 30 operations on 2 problems and a file")
ET = "core/include/eigentools/"
prop("C30", "Block matrices and Kronecker products equal the dense matrices they stand for",
     "A matrix of blocks of any sparsity and with static or dynamic block sizes gives access to exactly the stated blocks, rows and columns of blocks of the dense matrix, changes nothing else when they are written, and has the sizes of it; products with dense and block diagonal matrices on either side, selections of rows in blocks, and block Kronecker products with an identity (evaluated or multiplied with vectors and block diagonal matrices) equal those of the dense matrices, whatever was stored in the result before. "
     "Sizes which do not match are refused with an exception where the classes check them.",
     ["inputs", "histories"], "for all types of block matrices, sizes including zero, contents and sequences of operations on reused objects",
     "Tests use block matrices only inside two controllers with fixed block sizes; most overloads, selections and Kronecker products are never executed.",
     [ET + "blockmatrix.h", ET + "blockmatrix_base.h", ET + "blockmatrix_kronecker.h", ET + "eigentools.h"],
     [("BlockMatrix, BlockMatrixInterface, selectRowInBlocks", ET + "blockmatrix.h"), ("BlockMatrixBase::operator(), column, row, multiplyLeft, multiplyRight", ET + "blockmatrix_base.h"), ("BlockKroneckerProductBase::evaluate, multiplyRight, multiplyLeft", ET + "blockmatrix_kronecker.h")],
     ["elements and sizes of the matrices and products"], TLAREPLAY % "Blocks", NOTE % "14 combinations of block size and sparsity, up to 3 x 3 blocks, 24 operations on one matrix")
prop("C31", "Helpers of linear algebra and basic data types do what they are named after",
     "Symmetric products (with offset, accumulated) give the lower part of A'A at the requested place and nothing else, and mirroring makes it symmetric; concatenation joins all non-empty matrices in order or refuses inconsistent sizes; rows and columns are removed or selected exactly as requested and indices outside of the matrix are refused; block diagonal matrices are made of the given blocks; products with the matrix of a cross product are those with the dense matrix; pairs of left and right objects, locations and conversions of time return what was stored or converted.",
     ["inputs", "histories"], "for all sizes including empty matrices, contents and sequences of operations",
     "Most of these functions are not called by the tests, the others with one size.",
     [ET + "eigentools.h", CORE + "leftright.h", CORE + "utility.h", CORE + "time.h"],
     [("getATA, addATA, concatenateMatrices*, removeRow, removeColumn, selectRows, makeBlockDiagonal", ET + "eigentools.h"), ("LeftRightContainer", CORE + "leftright.h"), ("Location", CORE + "utility.h"), ("conversions of units", CORE + "time.h")],
     ["matrices and values returned, exceptions"], TLAREPLAY % "Tools", NOTE % "matrices up to 4 x 4, lists of up to 5 matrices, 24 operations")
prop("C32", "The logger writes every message once and in order",
     "Whatever the interleaving of the threads which log and the thread which writes, every message pushed while the logger runs is written exactly once, completely, to the stream which was in use when it was pushed, in the order of pushing; messages logged before a change of the stream or the destruction of the logger are written by then, the logger can be initialized again with any stream or file, stops when asked to, and accesses no shared data without synchronization.",
     ["schedules", "histories"], "for all interleavings of up to 2 threads which log, the writer, changes of the stream and destruction",
     "No test inspects the log; the failing schedules take a few instructions of one thread.",
     [CORE + "logger.h"],
     [("Logger::pushMessage, processQueue, interrupt, start, initialize", CORE + "logger.h"), ("LoggerBase::initialize, clean", CORE + "logger.h")],
     ["order and number of messages in the streams", "state of queue, flags and locks at each step of the threads"],
     "TLA+ specification Logger: all schedules of small configurations explored by TLC (safety and liveness under fairness); seeded schedules imposed on the real logger by a stub scheduler, runs of the real logger with real threads (also under ThreadSanitizer) recorded and checked against the specification by trace validation (LoggerTrace)",
     "TLC: trusted. Real code: schedules are sampled (TLC enumerates all of them in the model only); <= 2 producers, <= 4 messages each in the exhaustive part. Bursts of up to 2500 messages are logged with real threads only (the model does them in one step). Calls of one thread are not concurrent with initialization or destruction by another one; messages logged while no stream is set are not covered.")
prop("C33", "The log is an Octave program which recreates the data",
     "Whatever is logged (numbers, text, vectors, dense matrices of any type and parts of them, objects of the library, hierarchies of tasks), reading the log as an Octave program gives variables with exactly the intended names and the logged values to 14 digits: names are joined and indexed as documented, no two quantities share a name, no value is rounded, truncated or cut. It does not depend on the use of a logging thread.",
     ["inputs", "histories"], "for all names, types, values including non-finite ones and empty matrices, states of objects and hierarchies",
     "The tests write logs but never read them.",
     [CORE + "logger.h", CORE + "hierarchy.h", CORE + "task.h", "core/include/walking/*.h", "core/include/rigid_body/*.h", "modules/wpg04/include/wpg04/*.h", "modules/pepper_mpc/include/pepper_mpc/*.h"],
     [("OctaveFormatter, LogEntryName, Logger::log", CORE + "logger.h"), ("log() of hierarchy, tasks and constraints", CORE + "hierarchy.h"), ("log() of the states, horizons and parameters", CORE + "model.h")],
     ["variables of the logged program"], TLAREPLAY % "LogText and Hierarchy", NOTE % "31 kinds of values, 14 classes of objects, hierarchies of <= 6 tasks on <= 3 levels; a parser of the Octave subset in the harness is trusted")

prop("C34", "Inconsistent problems are refused, and nothing else",
     "Forming a hierarchy fails with an exception if a level has no tasks or no rows, or if the sizes of the matrices, bounds and gains of any task do not fit to each other or to the variables, whatever the kind of the task and wherever it is; pushing a task to a level which does not exist, handing back an active set with another number of levels, "
     "asking for the objective of inequalities or for a QP which cannot represent the hierarchy is refused as well. A refused call leaves the problem usable: consistent data can be given and formed afterwards, with the same result as without the failure.",
     ["inputs", "histories"], "for all 20 kinds of tasks, every piece of data with a wrong size, and all histories of resets, pushes, successful and failed formings",
     "All the tests use consistent problems; none of the checks is ever triggered.",
     [CORE + "constraints.h", CORE + "hierarchy.h", CORE + "hierarchy_level.h", CORE + "task.h", CORE + "qp_problem.h"],
     [("checkConsistency of the 20 kinds", CORE + "constraints.h"), ("HierarchyLevel::form, OptimizationProblem::pushTask, processActiveSet", CORE + "hierarchy.h")],
     ["exceptions", "contents of hierarchies formed after failures"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 5 tasks, <= 3 levels, 20 operations; indices of variables outside of the solution are not checked by the library and not generated")

prop("C35", "The bridges to QP solvers hand over the problem and its answer unchanged",
     "Solving a hierarchy with any of the QP solvers gives the solver exactly the objective and the constraints of the problem (with the regularization, tolerance, limits of time and iterations which were configured, and no others), with the guesses of the solution and of the active set translated to its conventions; what the solver answers comes back as the solution, "
     "status and active set of the same constraints, including several simple constraints on one variable, and a failure is reported as configured and described as one. Nothing remains from earlier problems or calls. Problems which cannot be represented, or are refused, do not reach the solver.",
     ["inputs", "histories", "configurations"], "for all hierarchies of one and two levels, parameters of the solvers, guesses and answers of the solvers (including failures), and sequences of them",
     "The solvers are not available to most builds; the tests which use them check one problem with default parameters, without repeated bounds, failures or guesses.",
     ["bridges/qpOASES/interface/qpoases/solver.h", "bridges/qpmad/interface/qpmad/solver.h", "bridges/QuadProgpp/interface/quadprogpp/solver.h", CORE + "solver.h", CORE + "qp_problem.h"],
     [("qpoases::Solver::solve, initializeSolution, getActiveSet, setActiveSet", "bridges/qpOASES/interface/qpoases/solver.h"), ("qpmad::Solver", "bridges/qpmad/interface/qpmad/solver.h"), ("quadprogpp::Solver", "bridges/QuadProgpp/interface/quadprogpp/solver.h")],
     ["arguments received by the solver", "solution, status, active sets, exceptions"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 6 tasks on <= 2 levels, 24 operations; the solver libraries are not installed, scripted stand-ins with the same interface take their place (what the real solvers do with the problem is not covered)")

prop("C36", "The bridge to RBDL gives the kinematics of tags at the current configuration",
     "For any kinematic tree (movable and fixed bodies, joints with one and three degrees of freedom and custom joints, massless bodies) the position, orientation, pose and mass of a tag on a body, of a point of a body, of a centre of mass of a body, of some or of all the bodies are those of the last configuration the model was updated with. Each column of a Jacobian is the "
     "velocity (angular above linear if complete) of the tag caused by its degree of freedom alone, with respect to the axes of the root frame, and zero for degrees of freedom the tag does not depend on, independently of the previous contents of the output. Tags remain valid over updates; a model can be loaded again, after which nothing of the former one remains; a model which cannot be read, an unknown link or an unknown type of Jacobian is refused.",
     ["inputs", "histories"], "for all trees, poses and axes, tags and sequences of updates and queries",
     "The tests of the bridge need RBDL, are not built without it, and compare one robot in a few configurations.",
     ["bridges/rbdl/interface/rbdl/model.h", "bridges/rbdl/interface/rbdl/spatial_transform.h", "bridges/rbdl/interface/rbdl/tag.h"],
     [("Model::load, update, get*Tag, getTagPosition, getTagOrientation, getTagPose, getTagMass, getTagJacobian", "bridges/rbdl/interface/rbdl/model.h"), ("SpatialTransformWithoutRotation", "bridges/rbdl/interface/rbdl/spatial_transform.h")],
     ["positions, orientations, poses, masses, Jacobians", "arguments received by the library"], TLAREPLAY % "Kinematics",
     NOTE % "<= 5 movable and 3 fixed bodies, 24 operations; RBDL is not installed, a scripted stand-in with its conventions takes its place; names of bodies are assumed to exist, tags of masses are on movable bodies")

prop("C37", "The whole body controller tracks what it was asked to",
     "For each placement of the root of the kinematic tree: coordinates of the robot can be set and read back, and are what the kinematic model is updated with; the base, body and total centres of mass, poses, velocities and Jacobians are those of the robot at the current coordinates. A command gives the joints reached, and the velocities of the base and of the wheels which lead "
     "from the saved state to the current one, and is refused if the joints are out of the bounds or too fast, or the wheels are too fast; a correction moves the robot by the executed part of the command. The tasks ask for the motion towards their current references (positions of centres of mass, orientation of the base, orientations, poses and velocities of tags at the tags, "
     "joint references), with the right gains and selected axes, and bound or fix the right joints, whatever was configured before. The next state is the state plus the solution, which can be used once.",
     ["inputs", "histories", "configurations"], "for all coordinates, configurations of the tree, references, velocities, parameters of tasks and sequences of operations",
     "The tests of the module need RBDL and models of the robot, and are not built here; they solve a few problems and compare logs.",
     ["modules/pepper_ik/include/pepper_ik/*.h"],
     [("Model, RobotCommand", "modules/pepper_ik/include/pepper_ik/model.h"), ("WholeBodyController", "modules/pepper_ik/include/pepper_ik/whole_body_controller.h"),
      ("ModelDescription", "modules/pepper_ik/include/pepper_ik/model_description.h"), ("tasks", "modules/pepper_ik/include/pepper_ik/task_*.h")],
     ["states, commands, values, matrices and bounds of tasks, exceptions"], TLAREPLAY % "PepperIK",
     NOTE % "three variants of the robot, 40 operations; orientations from the sampled rational angles, kinematics scripted (no RBDL, no URDF of the robot here); one model per task; speeds of the wheels within 2% of the limit only for sideways motion")
