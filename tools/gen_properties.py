import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("C01","An edited problem solves exactly like a freshly built one",
"After any sequence of task additions, removals and re-additions and weight changes interleaved with solves, the optimisation problem handed to the numerical solver (objective, equality and inequality constraints, bounds, attached to the right variables) is the one a brand new problem holding the same current tasks would produce. This is true for every solver back-end, at every solve, however many edits were batched since the previous solve. No trace of a removed task remains and no current task is missing.",
["histories","configurations"],"All interleavings of task add/remove/re-add, weight edits, variable sharing between tasks and solves, over all task kinds (equality, one/double-sided inequality, bound, objective), sizes and least-squares back-ends.",
"The incremental path is a state machine over an unbounded edit history; the stable tests never solve anything incrementally because no solver is installed, and upstream tests sample one or three edits around one fixed problem.",
["src/scheme/WeightedLeastSquares.cpp","src/solver/LeastSquareSolver.cpp","src/scheme/internal/../Assignment.cpp","include/tvm/solver/internal/SolverEvents.h","include/tvm/scheme/internal/ProblemComputationData.h","src/LinearizedControlProblem.cpp","src/ControlProblem.cpp"],
[("problem-definition event queue per scheme","include/tvm/scheme/internal/ProblemComputationData.h"),("incremental task addition/removal","src/scheme/WeightedLeastSquares.cpp"),("solver event processing, re-targeting of assignments","src/solver/LeastSquareSolver.cpp")],
["arguments of the numerical solver's solve call","values of the variables after solve"],
[("assignments","row blocks writing one constraint into the solver matrices","LeastSquareSolver"),("computation data","per (problem, scheme) solver state","ControlProblem")]))
L.append(P("C02","The solver is given exactly the problem the user stated",
"At every solve the numerical solver receives, for each task of the problem, the linearisation of that task at the current variable values with the task's desired dynamics, convention and bound signs: priority-0 tasks as constraints or bounds, lower-priority tasks as squared residuals multiplied by their scalar and per-component weights. Nothing is dropped, duplicated, sign-flipped, scaled differently or attached to another variable, whatever the back-end's own conventions. The same holds when the variables have moved between two solves.",
["histories","inputs","configurations"],"Every task kind, function, dynamics order, right-hand side, weight, back-end and sequence of variable motions and solves.",
"Stable tests check assignment conversions on a few fixed matrices and never reach a back-end; the composition of conventions, weights, bounds, several priorities and moving variables over a run is not exercised.",
["src/scheme/Assignment.cpp","src/scheme/AssignmentTarget.cpp","src/constraint/LinearizedTaskConstraint.cpp","src/scheme/WeightedLeastSquares.cpp","src/solver/QuadprogLeastSquareSolver.cpp","src/solver/QLDLeastSquareSolver.cpp","src/solver/LSSOLLeastSquareSolver.cpp","src/solver/LexLSLeastSquareSolver.cpp","src/Task.cpp"],
[("task linearisation","src/constraint/LinearizedTaskConstraint.cpp"),("constraint to solver-convention conversion","src/scheme/Assignment.cpp"),("back-end adapters","src/solver")],
["arguments of the numerical solver's solve call"]))
L.append(P("C03","Substitution hints never change what is solved",
"Declaring, adding or removing substitution hints at any point of a problem's life changes neither the set of feasible points nor the optimum the problem describes: with or without the hints every variable gets the same optimal value, and the substituted variables satisfy the constraint they were eliminated with. This remains true when unrelated tasks are added, removed or re-weighted and when variables move while hints are active. Removing a hint with the handle used to add it restores the problem without it. At any time, the expressions, additional variables and additional constraints produced for a set of hints describe exactly the points that satisfy the constraints the hints use, whatever these hints share or depend on and however their constraints change.",
["histories","inputs","configurations"],"All histories mixing hint add/remove, task edits, motion and solves, over full-rank and rank-deficient, square, wide, single, simultaneous, chained and interdependent substitutions, by the generic, diagonal and automatic calculators.",
"Upstream samples a handful of fixed hints with an installed solver; the stable tests stop at the algebra of one substitution and never solve.",
["src/hint/Substitutions.cpp","src/hint/SubstitutionUnit.cpp","src/hint/Substitution.cpp","src/hint/GenericCalculator.cpp","src/hint/DiagonalCalculator.cpp","src/hint/AutoCalculator.cpp","src/LinearizedControlProblem.cpp","src/scheme/Assignment.cpp"],
[("substitution dependency analysis","src/hint/Substitutions.cpp"),("variable elimination","src/hint/SubstitutionUnit.cpp"),("rebuild on hint change","src/scheme/WeightedLeastSquares.cpp"),("value recovery after solve","src/hint/Substitutions.cpp")],
["variable values after solve","arguments of the numerical solver's solve call"]))
L.append(P("C04","Every requirement change reaches every scheme exactly once",
"Whenever the weight or per-component weight of a lower-priority task is changed, through any supported assignment form and any number of times, every scheme that solves a problem containing the task uses the latest values at its next solve and never an older or partly combined one. Changes made while the task was not in the problem take effect when it is added again. A task removed from a problem no longer affects it.",
["histories","configurations","schedules"],"All interleavings of scalar and per-component weight changes, task add/remove, several problems sharing a task and several schemes solving at different rates.",
"Requires several schemes with lagging event queues and mixed weight kinds; stable tests only check that a callback object can be registered.",
["include/tvm/requirements/abstract/SingleSolvingRequirement.h","include/tvm/requirements/SolvingRequirements.h","src/ControlProblem.cpp","src/scheme/WeightedLeastSquares.cpp","src/solver/LeastSquareSolver.cpp","src/scheme/Assignment.cpp"],
[("requirement callbacks","src/ControlProblem.cpp"),("weight event handling","src/scheme/WeightedLeastSquares.cpp"),("weight refresh of assignments","src/scheme/Assignment.cpp")],
["arguments of the numerical solver's solve call"]))
L.append(P("C05","A failed operation leaves the problem as it was and usable",
"When adding or removing a task or hint, updating or solving fails - because the request is invalid, a user function throws, the back-end cannot be created or throws, or memory runs out while the solve is being computed - the error is reported and the problem still holds exactly the tasks and hints it held before an edit that was refused. Once the cause is gone (the offending task removed or the fault over) later solves describe and solve the current problem as a freshly built one would. No failure corrupts memory or leaves a half-applied edit visible.",
["fault_sequences","histories"],"Every point at which an edit, update or solve may fail (invalid edit, throwing user update, back-end failure, allocation failure during update and solve) in any history.",
"Failures must strike between the steps of an edit or an update and be followed by more history; no stable test injects any failure into a problem.",
["src/LinearizedControlProblem.cpp","src/ControlProblem.cpp","src/scheme/WeightedLeastSquares.cpp","include/tvm/scheme/abstract/ResolutionScheme.h","src/hint/Substitutions.cpp","src/graph/CallGraph.cpp"],
[("task registration and event queue","src/LinearizedControlProblem.cpp"),("computation data lifecycle","include/tvm/scheme/internal/helpers.hpp")],
["exceptions","task list of the problem","arguments of later solve calls"]))
L.append(P("C06","Problems and schemes never influence each other",
"Several problems, schemes and control loops living in one process and sharing tasks, functions or variables behave, for any interleaving of their edits and solves, exactly as each would if it were alone with the same variable values. Settings of one scheme (large-number convention, back-end, options) never leak into another, and destroying a problem, scheme or task leaves the others intact.",
["schedules","histories","configurations"],"All interleavings of k loops over shared or disjoint tasks with different schemes, options and object destruction.",
"Needs several live problems and schemes with differing options interleaved at event-queue granularity; tests build one problem per case.",
["src/ControlProblem.cpp","src/scheme/WeightedLeastSquares.cpp","src/scheme/Assignment.cpp","include/tvm/scheme/internal/helpers.hpp","src/internal/ObjWithId.cpp"],
[("computation data keyed by scheme","src/ControlProblem.cpp"),("large-number convention used in assignments","src/scheme/Assignment.cpp")],
["arguments of each solve call","variable values"]))
L.append(P("C07","The update plan runs each needed update once, after its dependencies",
"For any graph of nodes with declared dependencies and any history of added and removed inputs, one execution of the update plan runs every update the requested outputs transitively need exactly once and after everything it depends on, and runs nothing else. After the plan is rebuilt every requested output equals the value computed directly from the current sources. A dependency cycle among the needed updates is always reported and never silently drops updates.",
["programs","histories","fault_sequences"],"All dependency graphs (internal, input, output and direct dependencies, dynamic and overridden outputs) and histories of input changes, plan rebuilds and executions, including updates that throw.",
"Tests cover a few hand-drawn graphs without history; ordering and completeness must hold for every graph and every rewiring.",
["src/graph/CallGraph.cpp","src/graph/DependencyGraph.cpp","src/graph/Inputs.cpp","include/tvm/graph/abstract/Node.h","include/tvm/graph/internal/DependencyGraph.h","include/tvm/graph/internal/Inputs.h","include/tvm/graph/CallGraph.h"],
[("dependency graph ordering","src/graph/DependencyGraph.cpp"),("plan construction","src/graph/CallGraph.cpp")],
["sequence of user update calls","values of outputs"]))
L.append(P("C08","An event reaches every live listener exactly once",
"An event emitted by a source is delivered exactly once to every listener registered for that event that is still alive, in the order of registration, and to nobody else. Listeners that died, whenever that happened, are skipped without harm, and registering further listeners from inside a delivery is safe. This holds for any history of registrations, listener deaths and emissions.",
["histories","schedules"],"All interleavings of registration, listener destruction (also during a delivery), re-entrant registration and emission over several sources, listeners and event kinds.",
"No stable test covers event delivery; death and re-entrancy need specific interleavings.",
["src/event/Source.cpp","src/event/Listener.cpp","include/tvm/event/Source.h","include/tvm/event/Listener.h","include/tvm/event/enums.h"],
[("weak listener registry","src/event/Source.cpp")],["listener receive calls"]))
L.append(P("C09","A callback runs on each change exactly while its token lives",
"Each registered callback runs exactly once per notification as long as the token obtained at registration is alive and it was not unregistered, and never afterwards, regardless of how tokens are moved, stored in growing containers or destroyed, and of callbacks that unregister themselves or register new ones while running. Two paired tokens always designate each other, and a token whose partner died is unpaired.",
["histories","schedules"],"All histories of registration, token move construction/assignment, destruction, unregistration, re-entrancy and notification.",
"Tests check single moves; the pairing invariant must survive every history including container reallocation and re-entrancy.",
["include/tvm/internal/CallbackManager.h","include/tvm/internal/PairElementToken.h","include/tvm/requirements/abstract/SingleSolvingRequirement.h"],
[("paired tokens","include/tvm/internal/PairElementToken.h"),("callback list","include/tvm/internal/CallbackManager.h")],["callback invocations","pairing state of tokens"]))
L.append(P("C10","Object identities stay unique under every thread schedule",
"Variables and variable collections created and modified concurrently by different threads, each thread working on its own objects, all get different identities and behave exactly as if their threads had run one after the other. In particular the position of a variable in a collection is right whatever other threads do with their own collections.",
["schedules"],"All interleavings, at memory-access granularity, of threads creating variables, derivatives and variable collections and querying mappings.",
"Unit tests are single threaded; identity allocation and modification stamps are process-wide state.",
["include/tvm/internal/IdProvider.h","include/tvm/internal/ObjWithId.h","src/internal/ObjWithId.cpp","src/VariableVector.cpp","src/Variable.cpp"],
[("mutex around identity allocation","include/tvm/internal/IdProvider.h"),("modification stamp","src/VariableVector.cpp")],["ids of objects","mapping of variables"]))
L.append(P("C11","Velocity dampers keep every component out of the forbidden zone",
"In closed loop, a quantity protected by a velocity damper as a hard constraint never crosses its safety distance when starting from an admissible state, whatever other tasks, moving targets, task edits and solver failures (answered by stopping) occur, for lower, upper and double-sided limits, for velocity- and acceleration-level control, with given or automatically chosen damping. Within the interaction distance the approach is at most the damped speed of the documented law (once braking makes it possible, at acceleration level); outside of it the damper does not restrict the motion. Once other tasks stop pushing, the loop keeps running.",
["histories","fault_sequences","inputs"],"All damper configurations admissible for the time step, initial states, competing tasks, histories of edits and failures over simulated time.",
"Tests evaluate one update at one state; invariance over time depends on the whole loop (damper state, linearisation, constraint assembly, solver, integration).",
["src/task_dynamics/VelocityDamper.cpp","src/constraint/LinearizedTaskConstraint.cpp","src/scheme/WeightedLeastSquares.cpp","src/Clock.cpp"],
[("damper law with activation memory","src/task_dynamics/VelocityDamper.cpp")],["simulated plant state at every tick"]))
L.append(P("C12","Task dynamics make the closed loop follow the specified error law",
"In closed loop, a feasible task follows at every simulated tick the error dynamics it was given: exponential decay (scalar, diagonal or matrix gains), second-order proportional-derivative behaviour critically damped by default, reaching zero in one step, constant or reference rate, with optional feed-forward and saturation. Gains changed and targets or references moved during the run take effect at the next solve. After disturbances and solver failures stop, the error comes within tolerance in the number of steps the law implies.",
["histories","fault_sequences","inputs"],"All dynamics, gains, orders, time steps, disturbances, missed ticks, edits of gains and references over simulated time.",
"Tests evaluate each law once on fixed numbers, not over time nor through problem, scheme and solver, and not with wrappers combined.",
["src/task_dynamics/Proportional.cpp","src/task_dynamics/ProportionalDerivative.cpp","src/task_dynamics/OneStepToZero.cpp","src/task_dynamics/Reference.cpp","src/task_dynamics/Constant.cpp","src/task_dynamics/None.cpp","include/tvm/task_dynamics/Clamped.h","include/tvm/task_dynamics/FeedForward.h","src/task_dynamics/TaskDynamicsImpl.cpp"],
[("dynamics value updates","src/task_dynamics"),("wrappers","include/tvm/task_dynamics")],["simulated plant state at every tick","task dynamics value"]))
L.append(P("C13","A variable handle always designates live, consistent storage",
"Any handle obtained on a variable, one of its derivatives, primitives or sub-variables keeps what it designates alive and usable however the other handles are dropped. A sub-variable and its derivatives always read and write exactly their part of the corresponding super-variable and derivative, and asking twice for the same derivative yields the same object. This holds for every history of deriving, slicing, writing and dropping handles.",
["histories"],"All histories of creation, derivation, slicing (also of Lie-group spaces), writes, duplicate, and destruction orders of handles.",
"Ownership is shared by hand-built aliasing; only particular orders of dropping handles expose an error.",
["src/Variable.cpp","include/tvm/Variable.h","src/Space.cpp"],
[("aliasing shared ownership","src/Variable.cpp"),("shared value storage of sub-variables","src/Variable.cpp")],["variable values through every handle","memory safety"]))
L.append(P("C14","The column mapping of variables is always exact",
"After any history of additions and removals, counted or not, of overlapping variables and sub-variables, a variable collection contains exactly the variables (or parts) still needed and the reported range of each variable and sub-variable is its true position, for every collection it belongs to. Reading and writing the collection's concatenated value agrees with the individual variables. A refused addition or removal changes nothing.",
["histories","fault_sequences"],"All histories of add/remove over several collections sharing variables, sub-variables and derivatives, with refused operations.",
"Position caches and interval counting are history dependent; tests follow a few scripted sequences.",
["src/VariableVector.cpp","src/Variable.cpp","src/internal/VariableCountingVector.cpp","src/internal/RangeCounting.cpp","include/tvm/utils/internal/MapWithVariableAsKey.h"],
[("start cache with stamps","src/Variable.cpp"),("interval counting","src/internal/RangeCounting.cpp"),("counted variable set","src/internal/VariableCountingVector.cpp")],["ranges and values reported by collections"]))
L.append(P("C15","The hierarchical scheme solves exactly the stated hierarchy",
"At every solve of the hierarchical scheme each task is present exactly once, at its own priority level, with its linearisation at the current state and its weight, and priority-0 simple bounds restrict the right variable components; levels are given in order of priority. Unsupported on-line changes are refused with an error and never silently ignored. After such a refusal, other problems and freshly created schemes work normally.",
["histories","configurations","fault_sequences"],"All task sets over several priority levels, kinds, weights, options and motion histories, with refused edits and back-end failures.",
"Upstream tests need a back-end that is not installed; the stable suite never runs the hierarchical scheme.",
["src/scheme/HierarchicalLeastSquares.cpp","src/solver/HierarchicalLeastSquareSolver.cpp","src/solver/LexLSHierarchicalLeastSquareSolver.cpp","src/scheme/Assignment.cpp"],
[("level building","src/scheme/HierarchicalLeastSquares.cpp"),("hierarchical solver adapter","src/solver/LexLSHierarchicalLeastSquareSolver.cpp")],["data given to the hierarchical numerical solver"]))
L.append(P("C16","The allocation guard set by the user is honoured and preserved",
"When the user forbids dynamic allocation of matrices, solving a problem without substitution hints still works through any history of edits and the prohibition is in force again, as the user set it, after every solve, first solve included and whether it succeeded, failed or threw. A solve of a problem whose structure did not change since the previous one performs no matrix allocation.",
["histories","fault_sequences"],"All interleavings of guard changes, edits, solves and failing solves.",
"The guard is a process-wide stack that only misbehaves after particular sequences; stable tests never solve.",
["include/tvm/utils/memoryChecks.h","src/utils/memoryChecks.cpp","include/tvm/scheme/abstract/ResolutionScheme.h","src/scheme/WeightedLeastSquares.cpp","src/scheme/Assignment.cpp"],
[("guard override stack","src/utils/memoryChecks.cpp"),("override around structural updates","include/tvm/scheme/abstract/ResolutionScheme.h")],["value of the guard after each solve","allocations observed during solves"]))
L.append(P("C17","Solve reports its outcome and writes back exactly the solution",
"A solve reports success exactly when the numerical solver succeeded, and then every variable of the problem, and only those, holds its own part of the solution, each substituted variable holding the value implied by its constraint. Variables that are not unknowns of the problem (in particular the primitives of the solved derivatives) are never modified by solving. This holds at every solve of any history of edits, with sub-variables, and when solver failures are interleaved.",
["histories","fault_sequences","configurations"],"All histories of edits, solver outcomes (optimal, infeasible, failure) and variable layouts including sub-variables.",
"No stable test runs a solve; the write-back mapping changes with each structural edit.",
["include/tvm/scheme/abstract/ResolutionScheme.h","include/tvm/scheme/internal/ProblemComputationData.h","src/scheme/WeightedLeastSquares.cpp","src/internal/VariableCountingVector.cpp","src/hint/Substitutions.cpp"],
[("write-back of the solution","include/tvm/scheme/abstract/ResolutionScheme.h")],["return value of solve","variable values"]))
L.append(P("C18","The graph log describes every update plan truthfully",
"For any update plan that was built after the last change of its inputs and of the dependencies they lead to, whose objects were created while logging was enabled, the log reports exactly the outputs and updates that the plan uses, under their own names and each once, and probing the plan returns, for each of these outputs that has an accessor, the value it currently has; following the plan backward reaches exactly what the selected outputs depend on. This holds whatever happened before: inputs added and removed, plans rebuilt, objects destroyed and others created at the same addresses, and the log paused while unrelated objects were created. In particular it holds for the update plan of a problem whose tasks come and go.",
["histories","fault_sequences"],"All histories of node creation and destruction, plan building, executions, log pauses, address reuse and probes.",
"One demonstration test prints a log without checking it; exactness depends on the creation and destruction history and on address reuse.",
["src/graph/Log.cpp","src/graph/Logger.cpp","include/tvm/graph/internal/Logger.h","include/tvm/graph/internal/Inputs.hpp","src/graph/Inputs.cpp","src/diagnostic/GraphProbe.cpp","src/graph/CallGraph.cpp"],
[("process-wide log","src/graph/Logger.cpp"),("sub-graph extraction","src/graph/Log.cpp"),("probing","src/diagnostic/GraphProbe.cpp")],["outputs, updates and names reported for a plan","values and trees returned by the probe"]))
L.append(P("C22","Evaluating a function on demand is exact for the given values",
"Evaluating the value, jacobian, velocity, normal acceleration or jacobian derivative of a function through the on-demand wrapper returns exactly what the function, and all it is computed from, gives for the values and velocities passed in the call, variables that are not given keeping their current ones; jacobians may be asked for any part of a variable. This holds for every call form and any history of other evaluations, direct writes, changes of the parameters, variables, size and outputs of functions, and failed evaluations. Missing outputs, wrong numbers or sizes of values and foreign variables are refused with an explanation. The finite-difference checks accept the functions which outputs agree within the given tolerance at the configurations tested, and reject the others.",
["histories","fault_sequences","inputs"],"All histories of functions (linear, identity, expressions, user-defined, composed of others), wrappers, evaluations in all call forms, misuses, failing updates and checks.",
"Tests call the wrapper once on a fixed function; the value returned depends on the history of plans, caches, variable changes and failures.",
["include/tvm/utils/UpdatelessFunction.h","src/utils/UpdatelessFunction.cpp","src/utils/checkFunction.cpp","include/tvm/function/abstract/Function.h","src/function/Function.cpp","include/tvm/internal/FirstOrderProvider.h","src/internal/FirstOrderProvider.cpp","src/function/BasicLinearFunction.cpp","src/function/LinearFunction.cpp","src/function/IdentityFunction.cpp","include/tvm/utils/internal/MapWithVariableAsKey.h","include/tvm/graph/abstract/OutputSelector.h"],
[("on-demand evaluation","src/utils/UpdatelessFunction.cpp"),("function caches","src/internal/FirstOrderProvider.cpp"),("finite-difference checks","src/utils/checkFunction.cpp")],["values returned by the wrapper","verdicts of the checks","variable values","errors"]))
L.append(P("C19","Matrix shape properties are sound under all operations",
"The shape, constness and invertibility properties deduced for products, sums, negations and inverses of matrices are always implied by those of the operands.",
["inputs"],"All combinations of operand properties and operations.",
"Tests sample combinations; but it is a pure function of its input.",
["include/tvm/internal/MatrixProperties.h","src/internal/MatrixProperties.cpp"],[("property algebra","src/internal/MatrixProperties.cpp")],["deduced properties"]))
L.append(P("C20","Affine expressions denote the affine map they are written as",
"Any expression built from variables, matrices, vectors and scalars with the provided operators evaluates to the affine map the formula denotes and yields the corresponding function.",
["programs"],"All well-typed affine expressions.",
"Tests sample expressions; pure function of the expression.",
["include/tvm/utils/AffineExpr.h","include/tvm/utils/internal/AffineExprDetail.h"],[("expression templates","include/tvm/utils/AffineExpr.h")],["matrices and offsets of the expression"]))
L.append(P("C21","Robot functions are consistent with the robot model",
"Each robot function's value, velocity, jacobian and acceleration terms are those of the underlying multi-body model for every configuration.",
["inputs"],"All robots, frames and configurations.",
"Requires the robot libraries; values are pure functions of the configuration.",
["src/robot/PositionFunction.cpp","src/robot/OrientationFunction.cpp","src/robot/CoMFunction.cpp","src/robot/DynamicFunction.cpp","src/robot/Contact.cpp"],[("robot model wrappers","src/robot")],["function outputs"]))
for p in L:
    p["anchors"]["files"]=[f.replace("src/scheme/internal/../","src/scheme/") for f in p["anchors"]["files"]]
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in L))
import os
for p in L:
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print(p["id"],"missing",f)
