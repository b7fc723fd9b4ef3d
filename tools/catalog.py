#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it to regenerate both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="model_checking", state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook,
                               **({"state": state} if state else {})),
                  _technique=technique, _note=note, _level=level))


CORE = "core/include/humoto/"
TLAREPLAY = "TLA+ spec (%s), TLC model checking, exhaustive/sampled behaviours replayed into the real code"
NOTE = ("Invariants are checked by TLC on every state of the bounded model; every finished behaviour is executed on the library compiled "
        "from the working tree and each observation compared with the specification. Bounds: %s. Trusted: TLC, the replay harness, the comparison.")

prop("C01", "Every representation of a constraint describes the same set",
     "A constraint of any supported kind (bounds on selected, weighted selected, general or selected-column rows; two-sided, lower, upper, equality, zero equality) denotes the same set of points in every form into which it can be exported: general two-sided rows, general one-sided rows, equality rows, bounds on variables. "
     "Sides that are not bounded are exported as infinite, rows and columns keep their order and position, and an export which cannot represent the constraint is refused with an exception instead of producing something else.",
     ["inputs", "configurations"], "for all 20 kinds of constraints, all sizes, all data, all destinations",
     "The regression tests form a few fixed hierarchies of two controllers, which use a handful of the kinds with one set of data; most kinds (and all their exports) are never instantiated.",
     [CORE + "constraints.h", CORE + "constraints_base.h", CORE + "constraints_mixins.h", CORE + "hierarchy_level.h"],
     [("copyTo overloads of the copy mixins", CORE + "constraints_base.h"), ("copyBodyTo / copyNegativeBodyTo / copyBoundsTo", CORE + "constraints_mixins.h")],
     ["contents of the exported containers"], TLAREPLAY % "Constraints, Hierarchy",
     NOTE % "n <= 5 variables, <= 4 rows per task, 20 kinds; integer data")
prop("C02", "A formed hierarchy stacks exactly its tasks, in order, without gaps",
     "After forming, each level consists of exactly the rows of the tasks pushed to it since the last reset: general tasks before simple ones, each task occupying one contiguous range, the ranges covering the level without gaps or overlaps. "
     "The reported numbers of constraints (total, general, simple, equality, inequality, one-sided) and the exported level data agree with these rows, whatever sequence of resets, pushes and re-forms with tasks of changing sizes preceded. "
     "A hierarchy with an empty level is refused with an exception.",
     ["histories", "inputs"], "for every sequence of reset / push / form with tasks of any kind and size, including tasks that change size or become empty between two forms",
     "The tests form hierarchies of constant structure; sizes, order of tasks, levels and histories are never varied.",
     [CORE + "hierarchy_level.h", CORE + "hierarchy.h", CORE + "task.h"],
     [("HierarchyLevel::form, pushTask", CORE + "hierarchy_level.h"), ("OptimizationProblem::formHierarchy, reset", CORE + "hierarchy.h")],
     ["task locations, counters, exported containers of each level"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 6 tasks, <= 4 levels, <= 20 operations per history")
prop("C03", "The objective of a level is the sum of squared residuals of its tasks",
     "For a level of equality tasks the exported quadratic objective equals the sum over all tasks and rows of the squared residual, for every mixture of kinds of tasks and every order in which they were added, with no contribution left over from anything formed before. "
     "A level which contains an inequality has no objective and asking for it is refused with an exception.",
     ["inputs", "histories"], "for all mixtures, orders and data of equality tasks on a level",
     "The tests compare solutions of fixed controllers whose levels use at most two kinds of equality tasks; accumulated least squares of the other mixtures are never evaluated.",
     [CORE + "constraints.h", CORE + "constraints_mixins.h", CORE + "hierarchy_level.h", "core/include/eigentools/eigentools.h"],
     [("getATAandATb / addATAandATb", CORE + "constraints.h"), ("HierarchyLevel::getObjective", CORE + "hierarchy_level.h"), ("etools::getATA / addATA", "core/include/eigentools/eigentools.h")],
     ["matrix (lower triangle) and vector of the objective"], TLAREPLAY % "Hierarchy",
     NOTE % "all ordered pairs of the 8 equality kinds, sampled levels of <= 6 tasks, n <= 5")
prop("C04", "A hierarchy of one or two levels becomes exactly the equivalent QP",
     "The QP made from a one or two level hierarchy has as objective the sum of squares of the last level (gradient sign, full or lower-triangular Hessian and the reported Hessian type included) and as constraints exactly those of the first of two levels, in each of the supported constraint formats; the box of variables is the intersection of all simple constraints. "
     "Nothing of a previously formed QP survives in a reused QP object, and hierarchies that cannot be represented (too many levels, inequalities in the objective or in an equality-only format, contradictory bounds) are refused with an exception.",
     ["histories", "inputs", "configurations"], "for all hierarchies, QP formats, and sequences of problems sharing a QP object",
     "The tests only pass problems of constant structure through one format; reuse of a QP object for another structure and the refusals are never tried.",
     [CORE + "qp_problem.h", CORE + "hierarchy.h", CORE + "constraints_base.h"],
     [("OptimizationProblem::getQPProblem", CORE + "hierarchy.h"), ("QPObjective::initializeObjective, QPConstraints_*::initializeConstraints", CORE + "qp_problem.h"), ("ContainerILU::initializeSolutionBounds", CORE + "constraints_base.h")],
     ["Hessian, gradient, type, status, constraint containers, variable bounds"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 3 levels, <= 6 tasks, <= 16 operations on the same QP objects")
prop("C05", "Violations are the signed distances of each row to its bounds",
     "For any point, the violations computed for a formed hierarchy contain, per level and per row in the order of the rows of the level, the signed difference to the lower and to the upper bound and the resulting violation: negative if the lower bound is violated, positive if the upper bound is, zero if and only if the row is satisfied.",
     ["inputs", "histories"], "for all hierarchies, kinds of constraints and points",
     "Violations are computed by the solvers' logging only and are not compared with anything in the tests.",
     [CORE + "constraints_mixins.h", CORE + "violations.h", CORE + "hierarchy_level.h"],
     [("ViolationsComputation*Mixin::computeViolations", CORE + "constraints_mixins.h"), ("ViolationsConstraints::set", CORE + "violations.h")],
     ["per row violation, lower and upper differences"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 3 levels, <= 5 tasks, integer points in [-3,3]^n")
prop("C06", "The active set of a point is determined exactly",
     "For any point, the active set determined for a formed hierarchy marks every row of an equality (or of coinciding bounds) as equality, a row at or beyond its lower bound as lower-active, at or beyond its upper bound as upper-active, any other row as inactive, and a row with contradictory bounds as undefined; the number of active inequalities is counted accordingly.",
     ["inputs"], "for all hierarchies, kinds of constraints and points, including points exactly on a bound",
     "The tests use solvers that do not determine active sets; points on the boundary are not tried.",
     [CORE + "constraints_mixins.h", CORE + "active_set.h", CORE + "hierarchy_level.h"],
     [("ActiveSetDetermination*Mixin::determineActiveSet", CORE + "constraints_mixins.h"), ("ActiveSetConstraints::countActiveInequalities", CORE + "active_set.h")],
     ["activation type of every row"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 3 levels, <= 5 tasks, integer data such that points on bounds are frequent")
prop("C07", "Active sets are handed back to, and guessed by, the right tasks",
     "An active set given back to the hierarchy is distributed so that every task receives exactly its own rows; when the hierarchy is formed again, the guess of a task that declares itself unmodified is its last active set, and the guess of any other task is the default (equalities active, inequalities inactive). "
     "The guess of a level is the concatenation of the guesses of its tasks at their locations, and a task whose size changed although it declares itself unmodified is refused with an exception.",
     ["histories"], "for every sequence of forming, solving (processing an active set), modifying, pushing and resetting",
     "The tests do not use active set guessing at all.",
     [CORE + "task.h", CORE + "hierarchy_level.h", CORE + "hierarchy.h", CORE + "active_set.h"],
     [("TaskBase::guessActiveSet, copyActualActiveSetFrom, copyActiveSetGuessTo", CORE + "task.h"), ("OptimizationProblem::processActiveSet, guessActiveSet", CORE + "hierarchy.h")],
     ["guesses returned by form(), active sets stored in the tasks"], TLAREPLAY % "Hierarchy",
     NOTE % "<= 3 levels, <= 5 tasks, <= 24 operations")
prop("C10", "The KKT solver returns the constrained least squares optimum",
     "For every solvable problem with equality constraints and least squares objective, each solution method of the built-in KKT solver returns the unique point which satisfies the constraints and minimizes the objective, with status OK, independently of the problems solved before with the same solver object and of how the parameters were passed. "
     "Problems it does not support (inequalities, more than two levels, elimination with a non-diagonal Hessian) are refused with an exception.",
     ["inputs", "histories", "configurations"], "for all problems, solution methods and sequences of problems",
     "The tests solve a few trajectories of one controller with fixed parameters and compare with recorded files.",
     ["core/include/kktsolver.h", CORE + "solver.h", CORE + "qp_problem.h"],
     [("kktsolver::Solver::solveDirect, solveWithElimination", "core/include/kktsolver.h")],
     ["solution vector and return status"], TLAREPLAY % "KKT",
     NOTE % "n <= 5, <= 4 constraints, 6 problems per solver object; instances constructed around known integer optima")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")) else None

P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
na = {x["property"] for x in NA}
man = dict(version=1, setup_cmd="bash tools/setup.sh",
           checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                        thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"], level=p["_level"], level_note=p["_note"])
                   for p in P if p["id"] not in na],
           not_applicable=NA,
           notes="Specifications in spec/ (TLA+, checked with TLC), harnesses in harness/, driver in tools/. See DESIGN.md.")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
