"""What decides each of the properties: models, bounds, harnesses."""
PROPS = {}
ALLK = frozenset(range(1, 21))


def prop(pid, runs, level="model_checking", **kw):
    PROPS[pid] = dict(runs=runs, level=level, **kw)


def q(tier, quick, thorough):
    return quick if tier == "quick" else thorough


HINV = ["LocationsOK", "ExportsOK", "ObjectiveOK", "QPBoxOK", "ViolationsOK", "GuessOK", "Emit"]


def hier(label, tier, seed, n, ops, tasks=5, levels=3, maxvars=4, rows=3, maxops=14, kinds=ALLK, guess="never", focus="any",
         inv=HINV, exhaustive=False, must=None, flaws=12):
    return dict(label=label, module="Hierarchy", harness="core",
                constants=dict(SeedLo=seed * 1000, SeedHi=seed * 1000 + n - 1, Exhaustive=exhaustive, NumTasks=tasks,
                               MaxLevels=levels, MaxVars=maxvars, MaxRows=rows, MaxOps=maxops, KindSet=kinds,
                               Ops=frozenset(ops), GuessMode=guess, Focus=focus, FlawRate=flaws),
                invariants=inv, must_cover=must or ops)



STD = ["reset", "push", "form"]


def large(t, s, nq, nt, ops, **kw):
    """Larger hierarchies, fewer of them."""
    return hier("large", t, s + 50, q(t, nq, nt), STD + ops, **dict(dict(tasks=10, levels=6, maxvars=10, rows=8, maxops=24), **kw))



prop("C01", lambda t, s: [
    hier("one-task-all-kinds", t, s, q(t, 12, 120), STD + ["export"], tasks=1, levels=1, maxvars=4, rows=3, maxops=4, exhaustive=True),
    hier("levels", t, s, q(t, 600, 8000), STD + ["export"], tasks=6, levels=2, maxvars=5, rows=4, maxops=12),
    large(t, s, 200, 3000, ["export"], levels=2),
])
prop("C02", lambda t, s: [
    hier("histories", t, s, q(t, 1500, 20000), STD + ["export"], tasks=6, levels=4, maxops=20),
    hier("histories-guess", t, s, q(t, 500, 8000), STD + ["export", "process"], tasks=6, levels=3, maxops=20, guess="any"),
    large(t, s, 250, 3000, ["export", "process"], guess="any"),
])
EQK = frozenset([4, 5, 9, 10, 14, 15, 19, 20])
prop("C03", lambda t, s: [
    hier("pairs", t, s, q(t, 5, 50), STD + ["objective"], tasks=2, levels=1, maxvars=4, maxops=5, exhaustive=True, kinds=EQK, must=["objective"]),
    hier("equalities", t, s, q(t, 1500, 20000), STD + ["objective"], tasks=6, levels=2, maxvars=5, maxops=14, kinds=EQK),
    hier("mixed", t, s, q(t, 500, 5000), STD + ["objective"], tasks=5, levels=2, maxvars=5, maxops=14),
    large(t, s, 200, 3000, ["objective"], levels=2, kinds=EQK),
])
prop("C04", lambda t, s: [
    hier("qp", t, s, q(t, 2500, 30000), STD + ["qp"], tasks=6, levels=3, maxvars=4, maxops=16, focus="qp"),
    hier("qp-equalities", t, s, q(t, 1000, 10000), STD + ["qp"], tasks=6, levels=2, maxvars=4, maxops=16, focus="qp", kinds=EQK),
    hier("qp-bounds", t, s, q(t, 1000, 10000), STD + ["qp"], tasks=6, levels=2, maxvars=3, maxops=16, focus="qp", kinds=frozenset([1, 2, 3, 4, 5, 11, 13, 14])),
    large(t, s, 200, 3000, ["qp"], levels=2, focus="qp"),
])
prop("C05", lambda t, s: [
    hier("violations", t, s, q(t, 2500, 30000), STD + ["violations"], tasks=5, levels=3, maxvars=4, maxops=14),
    hier("violations-guess", t, s, q(t, 300, 3000), STD + ["violations"], tasks=5, levels=3, maxvars=4, maxops=14, guess="always"),
    large(t, s, 200, 3000, ["violations"]),
])
prop("C06", lambda t, s: [
    hier("activeset", t, s, q(t, 2500, 30000), STD + ["activeset"], tasks=5, levels=3, maxvars=3, maxops=14),
    large(t, s, 200, 3000, ["activeset"]),
])
prop("C07", lambda t, s: [
    hier("lifecycle", t, s, q(t, 2500, 30000), STD + ["process"], tasks=5, levels=3, maxvars=4, maxops=20, guess="always"),
    hier("lifecycle-small", t, s, q(t, 1500, 10000), STD + ["process", "activeset"], tasks=3, levels=2, maxvars=3, maxops=24, guess="always"),
    large(t, s, 200, 3000, ["process"], guess="always"),
])

prop("C10", lambda t, s: [
    dict(label="kkt", module="KKT", harness="core",
         constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 1200, 12000) - 1, Rounds=8, MaxVars=q(t, 5, 5)),
         invariants=["Feasible", "Stationary", "Optimal", "Emit"]),
    dict(label="large", module="KKT", harness="core",
         constants=dict(SeedLo=s * 1000 + 50000, SeedHi=s * 1000 + 50000 + q(t, 300, 5000) - 1, Rounds=8, MaxVars=10),
         invariants=["Feasible", "Stationary", "Emit"]),
])

prop("C08", lambda t, s: [
    dict(label="parts", module="SolutionParts", harness="core",
         constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 1500, 20000) - 1, MaxOps=20, Ids=frozenset(["A", "B", "C", "D"])),
         invariants=["PartsOK", "Emit"]),
    dict(label="many", module="SolutionParts", harness="core",
         constants=dict(SeedLo=s * 1000 + 50000, SeedHi=s * 1000 + 50000 + q(t, 300, 4000) - 1, MaxOps=40, Ids=frozenset("ABCDEFGHIJKL")),
         invariants=["PartsOK", "Emit"]),
])
prop("C09", lambda t, s: [
    dict(label="all-calls", module="SolverLife", harness="core",
         constants=dict(SeedLo=1, SeedHi=1, MaxOps=3, Exhaustive=True), invariants=["StatusOK", "Emit"]),
    dict(label="sequences", module="SolverLife", harness="core",
         constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 500, 5000) - 1, MaxOps=16, Exhaustive=False), invariants=["StatusOK", "Emit"]),
])
prop("C11", lambda t, s: [
    dict(label="generic-tasks", module="GenericTasks", harness="core",
         constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 1500, 20000) - 1, MaxOps=12), invariants=["ZeroOK", "Emit"]),
])


def sampled(label, module, harness, t, s, nq, nt, ops, inv, **kw):
    extra = kw.pop("const", {})
    return dict(label=label, module=module, harness=harness,
                constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, nq, nt) - 1, MaxOps=ops, **extra), invariants=inv + ["Emit"], **kw)


CONDENSE_OUT = ["oblock", "odense", "ogroups"]
prop("C12", lambda t, s: [
    sampled("condense", "Condense", "mpc", t, s, 500, 8000, 8, ["CondensedOK"], const=dict(MaxN=q(t, 4, 5)),
            must_cover=["block", "full", "dense", "invariant"] + CONDENSE_OUT),
    sampled("long", "Condense", "mpc", t, s + 50, 80, 1500, 6, ["CondensedOK"], const=dict(MaxN=q(t, 12, 14)), must_cover=["block", "full", "dense", "invariant"])])
prop("C13", lambda t, s: [sampled("integrators", "Integrator", "mpc", t, s, 1500, 20000, 8, ["ReachedOK", "SemigroupOK"], must_cover=["jerk", "acc", "vel", "pos"])])
prop("C14", lambda t, s: [sampled("pointmass", "PointMass", "mpc", t, s, 1000, 15000, 6, ["SemigroupOK", "CopOK"])])
prop("C15", lambda t, s: [sampled("cubic", "Cubic", "mpc", t, s, 1500, 20000, 20, ["FootOK"], must_cover=["evalfoot", "eval", "scale"])])
prop("C16", lambda t, s: [sampled("rotation", "Rotation", "mpc", t, s, 1500, 20000, 10, ["RotationOK"],
                                  must_cover=["euler", "error", "rates", "integrate1", "rodrigues", "cross", "body", "badtype"])])

STINV = ["WalkOK", "TimeOK", "AlternateOK"]


def stance(label, t, s, nq, nt, ops, inv, must, **c):
    const = dict(Exhaustive=False, MaxSteps=5, MaxDur=6, MaxShift=8)
    const.update(c)
    return sampled(label, "Stance", "wpg", t, s, nq, nt, ops, inv, const=const, must_cover=must)


prop("C17", lambda t, s: [
    stance("all-short", t, s, 1, 1, q(t, 4, 5), STINV, ["time", "jump", "next"], Exhaustive=True),
    stance("histories", t, s, 1500, 20000, 24, STINV, ["set", "time", "jump", "next", "support"]),
    stance("long", t, s + 50, 300, 4000, 60, STINV, ["set", "time", "jump", "next", "support"], MaxSteps=25, MaxDur=900, MaxShift=3000)])
prop("C18", lambda t, s: [
    stance("all-short", t, s, 1, 1, 3, STINV + ["PreviewOK"], ["preview"], Exhaustive=True),
    stance("histories", t, s, 2000, 25000, 24, STINV + ["PreviewOK"], ["preview", "time"]),
    stance("long", t, s + 50, 200, 3000, 40, STINV + ["PreviewOK"], ["preview", "time"], MaxSteps=25, MaxDur=900, MaxShift=3000)])


WKINV = ["HorizonOK", "PredictOK", "FeetOK", "SupportOK"]


def walk(label, t, s, nq, nt, must, turn=False, ticks=6, cycles=None):
    return dict(label=label, module="Walk", harness="wpg",
                constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, nq, nt) - 1, MaxCycles=cycles or q(t, 20, 30), MaxTicks=ticks, Start345=turn),
                invariants=WKINV + ["Emit"], must_cover=must)


WKOPS = ["setup", "retune", "update", "solve", "predict", "next"]
for n, pid in enumerate(["C19", "C20", "C21", "C22"]):
    prop(pid, lambda t, s, n=n: [walk("loops", t, s + 10 * n, 180, 5000, WKOPS),
                                 walk("turned", t, s + 10 * n, 90, 2500, WKOPS, turn=True, ticks=5)])


PPINV = ["PlanOK", "ShiftOK", "PredictOK", "NextOK"]
PPOPS = ["setup", "retune", "update", "shift", "plan", "solve", "predict", "tasks", "at", "next", "model"]


def pepper(label, t, s, nq, nt, inv, cycles=None, drop=("bodyref",)):
    return dict(label=label, module="Pepper", harness="pepper",
                constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, nq, nt) - 1, MaxCycles=cycles or q(t, 8, 12)),
                invariants=inv + ["Emit"], must_cover=PPOPS, drop=drop)


prop("C23", lambda t, s: [pepper("loops", t, s, 600, 15000, PPINV)])
prop("C24", lambda t, s: [pepper("loops", t, s + 10, 600, 15000, PPINV)])
prop("C25", lambda t, s: [pepper("loops", t, s + 20, 600, 15000, PPINV, drop=())])
prop("C26", lambda t, s: [pepper("loops", t, s + 30, 600, 15000, PPINV)])


def config(label, t, s, nq, nt, ops=None, yaml=False):
    return dict(label=label, module="Config", harness="config", defs=["VERIF_YAML"] if yaml else [],
                constants=dict(Yaml=yaml, SeedLo=s * 1000, SeedHi=s * 1000 + q(t, nq, nt) - 1, MaxOps=ops or q(t, 24, 40)),
                invariants=["RoundTrip", "OrderFree", "Emit"], must_cover=["fill", "write", "edit", "read"])


prop("C27", lambda t, s: [config("files", t, s, 600, 10000, 16), config("yaml", t, s + 5, 600, 10000, 16, yaml=True)])
prop("C28", lambda t, s: [config("files", t, s + 10, 600, 10000), config("yaml", t, s + 15, 600, 10000, yaml=True)])
def cproblem(label, t, s, nq, nt, defs=()):
    return dict(label=label, module="ConfigProblem", harness="config", defs=list(defs),
                constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, nq, nt) - 1, MaxOps=30),
                invariants=["RoundTrip", "OrderOK", "Emit"], must_cover=["reset", "push", "write", "edit", "read"])


prop("C29", lambda t, s: [cproblem("problems", t, s, 600, 10000), cproblem("yaml", t, s + 5, 600, 10000, ["VERIF_YAML"])])
prop("C30", lambda t, s: [dict(label="blocks", module="Blocks", harness="blocks",
                               constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 1000, 20000) - 1, MaxOps=24),
                               invariants=["ShapeOK", "KronOK", "CopiesOK", "Emit"],
                               must_cover=["set", "zero", "fill", "write", "line", "parts", "blocksize", "mul", "lmul", "bmul", "kron", "kronvec", "krondiag", "diagkron", "select"])])
prop("C31", lambda t, s: [dict(label="tools", module="Tools", harness="blocks",
                               constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 1000, 20000) - 1, MaxOps=24),
                               invariants=["ShapeOK", "SymOK", "SelectionOK", "Emit"],
                               must_cover=["ata", "addata", "sym", "transform", "diagmats", "diagcopies", "kronid", "vcat", "hcat", "rmrow", "rmcol", "selrows", "unset", "pair", "location", "units"])])

def logger(label, tier, s, nq, nt, defs=(), steps=300, burst=0, **kw):
    return dict(label=label, module="Logger", harness="logger", defs=list(defs), trace="LoggerTrace",
                constants=dict(SeedLo=s * 10000, SeedHi=s * 10000 + q(tier, nq, nt) - 1, MaxSteps=steps, Mode="seeded", NumProducers=0, NumMessages=0, Burst=burst),
                invariants=["NoLoss", "Drained", "StreamOK", "StreamOrder", "IdleOK", "DestroyOK", "Emit"], **kw)


prop("C32", lambda t, s: [
    dict(label="all-schedules", module="Logger", harness="logger", expect_cases=False, spec="FairSpec", properties=["Progress"],
         constants=dict(SeedLo=1, SeedHi=1, MaxSteps=300, Mode="all", NumProducers=2, NumMessages=q(t, 1, 3), Burst=0),
         invariants=["NoLoss", "Drained", "StreamOK", "StreamOrder", "IdleOK", "DestroyOK"]),
    logger("schedules", t, s, 1500, 30000, fallback=["VERIF_REAL_THREADS"]),
    logger("threads", t, s, 400, 6000, ["VERIF_REAL_THREADS"]),
    logger("bursts", t, s, 40, 600, ["VERIF_REAL_THREADS"], steps=1, burst=2500),
    logger("races", t, s, 300, 6000, ["VERIF_REAL_THREADS", "-fsanitize=thread"], env={"TSAN_OPTIONS": "halt_on_error=1"})])


def logtext(label, t, s, defs):
    return dict(label=label, module="LogText", harness="logger", defs=["VERIF_OBJECTS", "-fno-access-control"] + defs,
                constants=dict(SeedLo=s * 1000, SeedHi=s * 1000 + q(t, 600, 12000) - 1, MaxOps=10),
                invariants=["NamesOK", "Emit"], must_cover=["entries", "object", "raw"])


prop("C33", lambda t, s: [
    logtext("threaded", t, s, ["VERIF_REAL_THREADS"]),
    logtext("unthreaded", t, s, ["VERIF_NO_LOGGING_THREAD"]),
    hier("hierarchies", t, s, q(t, 400, 8000), STD + ["process", "log"], tasks=6, levels=3, maxvars=4, maxops=16, guess="any", must=["log"])])

prop("C34", lambda t, s: [
    hier("one-task-all-kinds", t, s, q(t, 1500, 15000), STD, tasks=1, levels=1, maxvars=4, rows=3, maxops=14, flaws=2),
    hier("histories", t, s, q(t, 1500, 15000), STD + ["misuse", "qp", "objective"], tasks=5, levels=3, maxvars=4, maxops=20, flaws=3, guess="any"),
])

prop("C35", lambda t, s: [
    hier("one-problem", t, s, q(t, 1500, 20000), STD + ["solve"], tasks=4, levels=2, maxvars=4, maxops=12, focus="qp"),
    hier("histories", t, s, q(t, 1500, 20000), STD + ["solve", "process"], tasks=6, levels=2, maxvars=4, maxops=24, focus="qp", guess="any"),
    hier("bounds", t, s, q(t, 1000, 10000), STD + ["solve"], tasks=5, levels=2, maxvars=2, maxops=16, focus="qp", kinds=frozenset([1, 2, 3, 4, 5, 11, 14]), guess="any"),
])

prop("C36", lambda t, s: [
    sampled("trees", "Kinematics", "kinematics", t, s, 600, 10000, 24, ["RigidOK", "SplitOK", "PosesOK"], const=dict(MaxBodies=5, MaxFixed=3),
            must_cover=["load", "update", "tag", "query", "badtype", "badlink"]),
])


prop("C37", lambda t, s: [
    sampled("robots", "PepperIK", "pepperik", t, s, 400, 8000, 40, ["PartsOK", "TreeOK", "LogOK"], defs=["VERIF_MSGPACK"],
            must_cover=["coords", "load", "update", "state", "query", "save", "command", "correct", "check", "transition", "wbc", "start", "staterror", "setvel",
                        "getvel", "desired", "poseerror", "next", "nextparsed", "task", "configure", "form"]),
])
