#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over "
CHECKS = {
    "C01": ("edit histories of problems and the solves between them", "Seeded sampling of edit/solve histories of the real problem, scheme, assignment and solver-wrapper code against every back-end's recording stand-in; oracle: the system restated from the definitions of the current members. Evidence, not proof."),
    "C02": ("problems, back-ends and options", "Seeded sampling of problems (task types, gains, matrix properties, options, back-ends, schemes); oracle: the rows, bounds and objective handed to the numerical solver recomputed from the definitions. The numerical routines are stand-ins. Evidence, not proof."),
    "C03": ("substitution hints, their histories, and problems they apply to", "Seeded sampling, two worlds. Problems: the optimum of the same problem stated without hints, computed by an independent solver (near-singular and non strictly convex instances are skipped and counted). Sets of hints: the set of points described is compared with the one of the original constraints by rank, feasibility and sampled points. Evidence, not proof."),
    "C04": ("histories of requirement changes", "Seeded sampling of weight, anisotropic weight and priority changes between solves; same oracle as C01. Evidence, not proof."),
    "C05": ("faults (throwing user functions, back-end creation and solver failures, allocation failures, invalid edits) at seeded points of a history", "Seeded sampling of fault points; oracle: member list and later solves equal to those of a freshly stated problem, address sanitizer on. Evidence, not proof."),
    "C06": ("interleavings of several problems, schemes and back-ends in one process", "Seeded sampling; every solve is judged against the statement of its own problem. Evidence, not proof."),
    "C15": ("hierarchical problems and their histories", "Seeded sampling of hierarchies; oracle: level contents recomputed from definitions and the lexicographic optimum where it is unique. LexLS is a stand-in. Evidence, not proof."),
    "C16": ("interleavings of guard changes, edits, failing and successful solves", "Seeded sampling with Eigen's run-time allocation check on and every allocation counted. Problems with substitution hints are outside the property. Evidence, not proof."),
    "C17": ("solver outcomes, unknowns and write-backs", "Seeded sampling of outcomes (success, failure, failure with NaN, exception); oracle: return value and every variable component. Evidence, not proof."),
    "C13": ("histories of deriving, slicing, writing and dropping variable handles", "Seeded sampling of histories of the real Variable code on a simulated heap (placement, reuse and allocation failures decided by the seed, freed memory filled); exact model of the storage every handle designates as oracle. Evidence, not proof."),
    "C14": ("histories of additions, removals, copies and moves of variable collections", "Seeded sampling of histories of the real VariableVector/VariableCountingVector/RangeCounting code; exact model of content and positions as oracle. Allocation failures inside a collection's edit are not injected. Evidence, not proof."),
    "C10": ("schedules of threads creating variables and editing collections", "Seeded sampling of schedules of real threads, one running at a time, switched at the compiler's memory-access hooks, at locks and at step boundaries by a seeded scheduler; the same histories run one thread after the other, and the exact models of C13/C14, are the oracle. Sequentially consistent interleavings only: effects of weaker memory orders are outside. Evidence, not proof."),
    "C11": ("closed loops with velocity dampers, their edits, disturbances and solver failures", "Seeded sampling of closed-loop histories: the plant, its clock and its failures are simulated, the task dynamics, task constraints, scheme and problem are the real code, the numerical solver is a stand-in. Invariant judged at every tick, plus the rows of the documented law and the optimum of the restated problem. Damper parameters are admissible for the time step. Evidence, not proof."),
    "C12": ("closed loops with every error law, gain changes, disturbances, missed ticks and solver failures", "Seeded sampling of closed-loop histories over simulated time on the real task dynamics, constraint, scheme and problem code; oracle: the error trajectory predicted from the stated law, and convergence within the number of ticks the law implies once faults stop. Tasks are kept compatible. Evidence, not proof."),
    "C07": ("dependency graphs, rewiring histories and throwing updates", "Seeded sampling of graphs and histories on the real CallGraph/DependencyGraph/Inputs/Node code; transitive-closure reference model as oracle. Cycles made only of direct output-to-output dependencies (no update in them) are outside the property. Evidence, not proof."),
    "C18": ("histories of nodes, plans, problems, log pauses and probes", "Seeded sampling of histories of the real Logger/Log/GraphProbe/CallGraph/Inputs/Node code on a simulated heap that decides which addresses are used again; reference model of the graph, and the values the nodes hold, as oracle. Plans whose inputs or dependencies changed since they were built, and objects created while the log was paused, are outside the property. Evidence, not proof."),
    "C22": ("histories of on-demand evaluations, variable writes, function changes, misuses and failures", "Seeded sampling of histories of the real UpdatelessFunction, checkFunction, Function/FirstOrderProvider, linear function and update plan code; an independent evaluation of the functions, and of the documented finite differences, is the oracle. Verdicts of the checks close to their tolerance are not judged (counted). Evidence, not proof."),
    "C08": ("event histories and re-entrant listener deaths", "Seeded sampling of histories of the real event::Source/Listener code on a simulated heap; exact delivery model as oracle. A clean batch is evidence over the runs made, not proof."),
    "C09": ("callback/token histories and re-entrancy", "Seeded sampling of histories of the real CallbackManager/PairElementToken/requirement code on a simulated heap; exact reference model of pairings and notifications. A clean batch is evidence, not proof."),
}
NA = {
    "C19": "Pure function of its operands: no schedule, time, I/O, fault or history for a simulator to control; deterministic simulation adds nothing over input testing.",
    "C20": "Pure algebra on expression objects: the result depends on the expression only, never on a schedule, clock, fault or history.",
    "C21": "Needs RBDyn/SpaceVecAlg/sch-core, which are not installed here (the repository's build leaves them out), and the values are pure functions of the configuration.",
}
import sys
extra = os.path.join(V, "tools", "manifest_checks.json")
PENDING = "check not built yet"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        CHECKS[k] = tuple(v)
m = {"version": 1, "setup_cmd": "python3 tools/check.py build",
     "hooks": {"guard": "none", "enable": "no hook is needed: the simulators compile /repo's sources as they are; every seam is the linker, the heap, the solver headers or a user-level interface", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "python3 tools/check.py replay FILE replays a violation; see DESIGN.md"}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH + t, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
