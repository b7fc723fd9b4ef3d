------------------------------- MODULE Config -------------------------------
(* Configurable objects and configuration files: what is written, what can  *)
(* be read back and by whom, files edited by hand (missing, additional,     *)
(* reordered, malformed entries), strict and relaxed reading, quantities    *)
(* derived from the entries.                                                *)
EXTENDS Num
CONSTANTS SeedLo, SeedHi, MaxOps,
    Yaml   \* files are YAML: scalars have no types, everything is text if text is needed

VARIABLES seed, cls, objs, file, n, bad, log
vars == <<seed, cls, objs, file, n, bad, log>>

R(i, lo, hi) == RandInt(seed, 5000 * n + i, lo, hi)

\* ------------------------------------------------------------- classes
E0(k, kind) == [k |-> k, kind |-> kind, z |-> 0, c |-> ""]
EZ(k, kind, z) == [k |-> k, kind |-> kind, z |-> z, c |-> ""]
EO(k, c) == [k |-> k, kind |-> "obj", z |-> 0, c |-> c]
V3(k) == EZ(k, "vec", 3)
V2(k) == EZ(k, "vec", 2)
PointMass == <<V3("position"), V3("velocity"), V3("acceleration")>>
Rotary == <<V3("rpy"), V3("angular_velocity"), V3("angular_acceleration")>>
StanceFSM == <<E0("ss_duration_ms", "nat"), E0("tds_duration_ms", "nat"), E0("first_stance_duration_ms", "nat"), E0("last_stance_duration_ms", "nat"),
               E0("num_steps", "nat"), EZ("first_stance", "enum", 4), EZ("first_ss_type", "enum", 4), EZ("last_stance", "enum", 4)>>
SolverBase == <<E0("crash_on_any_failure", "bool"), E0("solve_two_levels_as_qp", "bool")>>
Leaf == <<E0("a", "num"), E0("b", "nat")>>
Schemas == [
    \* all the kinds of entries (classes of the harness)
    Kinds |-> <<E0("real", "num"), E0("count", "nat"), E0("shift", "int"), E0("flag", "bool"), E0("name", "str"), EZ("mode", "enum", 3),
                V2("v2"), V3("v3"), EZ("vx", "vec", -1), EZ("m23", "mat", 23), EZ("m22", "mat", 22), EZ("mx", "mat", 0),
                E0("list", "list"), E0("names", "strs"), E0("table", "table")>>,
    Leaf |-> Leaf,
    \* a parent, members, members of members
    Nest |-> Leaf \o <<E0("top", "num"), EO("inner", "Leaf"), EO("deep", "Middle")>>,
    Middle |-> <<EO("one", "Leaf"), E0("text", "str"), EO("two", "Leaf")>>,
    \* the same, missing entries are accepted by default
    Relaxed |-> <<E0("real", "num"), E0("flag", "bool"), EZ("vx", "vec", -1), EZ("m22", "mat", 22), E0("names", "strs"), EO("inner", "Leaf")>>,
    \* classes of the library
    PointMassState |-> PointMass,
    RotaryState |-> Rotary,
    RigidBodyState |-> PointMass \o Rotary,
    ObstacleBase |-> PointMass \o Rotary,
    RigidBodyPose |-> <<V3("position"), V3("rpy")>>,
    StanceFSMParameters |-> StanceFSM,
    RobotFootParameters |-> <<E0("max_step_len", "num"), E0("min_feet_dist", "num"), E0("max_feet_dist", "num"), E0("feet_dist_default", "num"),
                              E0("foot_length", "num"), E0("foot_width", "num")>>,
    WalkParameters |-> <<V2("com_velocity"), V2("first_stance_com_velocity"), V2("last_stance_com_velocity"), E0("step_height", "num"),
                         E0("theta_increment", "num")>> \o StanceFSM,
    WalkMPC |-> <<E0("preview_horizon_length", "nat"), E0("sampling_time_ms", "nat"), E0("subsampling_time_ms", "nat"), E0("tds_sampling_time_ms", "nat")>>,
    WalkState |-> <<EZ("stance_type", "enum", 4), EZ("next_stance_type", "enum", 4), EO("com_state", "PointMassState"),
                    EO("left_foot_state", "RigidBodyState"), EO("right_foot_state", "RigidBodyState")>>,
    PepperRobot |-> <<E0("base_radius", "num"), E0("max_nominal_base_velocity", "num"), E0("max_nominal_base_acceleration", "num"),
                      E0("max_base_velocity", "num"), E0("max_base_acceleration", "num"), EZ("body_bounds", "mat", 22)>>,
    PepperMotion |-> <<V2("base_velocity"), V2("base_position"), E0("base_angular_velocity", "num"), EZ("motion_mode", "enum", 2), E0("duration_ms", "int")>>,
    PepperMPC |-> <<E0("preview_horizon_length", "nat"), E0("sampling_time_ms", "nat"), E0("subsampling_time_ms", "nat")>>,
    PepperState |-> <<EO("base_state", "RigidBodyState"), EO("body_state", "PointMassState"), E0("base_mass", "num"), E0("body_mass", "num")>>,
    \* inverse kinematics: parameters, references and states of two kinds of models
    WBCParameters |-> <<E0("control_interval_ms", "nat"), E0("joint_angle_error_tolerance", "num"), E0("motion_parameters_tolerance", "num"),
                        E0("maximal_number_of_iterations", "nat")>>,
    IKMotion |-> <<V3("base_orientation_rpy"), V3("base_com_position"), V3("body_com_position")>>,
    IKPlanar |-> <<V3("root_pose"), EZ("joint_angles", "vec", 15)>>,
    IKState |-> <<EZ("root_pose", "vec", 6), EZ("joint_angles", "vec", 15)>>,
    KKTParameters |-> SolverBase,
    \* parameters of the bridges to the solvers of QPs
    QPOasesOptions |-> <<EZ("enableRamping", "enum", 1), EZ("enableFarBounds", "enum", 1), EZ("enableFlippingBounds", "enum", 1),
                      EZ("enableRegularisation", "enum", 1), EZ("enableFullLITests", "enum", 1), EZ("enableNZCTests", "enum", 1),
                      E0("enableDriftCorrection", "int"), E0("enableCholeskyRefactorisation", "int"), EZ("enableEqualities", "enum", 1),
                      E0("terminationTolerance", "num"), E0("boundTolerance", "num"), E0("boundRelaxation", "num"), E0("epsNum", "num"),
                      E0("epsDen", "num"), E0("maxPrimalJump", "num"), E0("maxDualJump", "num"), E0("initialRamping", "num"),
                      E0("finalRamping", "num"), E0("initialFarBounds", "num"), E0("growFarBounds", "num"), EZ("initialStatusBounds", "enum", 1),
                      E0("epsFlipping", "num"), E0("numRegularisationSteps", "int"), E0("epsRegularisation", "num"), E0("numRefinementSteps", "int"),
                      E0("epsIterRef", "num"), E0("epsLITests", "num"), E0("epsNZCTests", "num"), E0("rcondSMin", "num"),
                      EZ("enableInertiaCorrection", "enum", 1), EZ("enableDropInfeasibles", "enum", 1), E0("dropBoundPriority", "int"),
                      E0("dropEqConPriority", "int"), E0("dropIneqConPriority", "int")>>,
    QPOases |-> SolverBase \o <<E0("max_number_of_iterations", "int"), E0("max_cpu_time", "num"), EO("QPoasesParameters", "QPOasesOptions")>>,
    QPMadOptions |-> <<EZ("hessian_type", "enum", 2), E0("tolerance", "num"), E0("max_iter", "int")>>,
    QPMad |-> SolverBase \o <<E0("regularization_factor", "num"), EO("QPmadParameters", "QPMadOptions")>>,
    QuadProg |-> SolverBase \o <<E0("regularization_factor", "num")>>,
    Solution |-> <<EZ("x", "vec", -1)>>]
Classes == <<"Kinds", "Kinds", "Nest", "Relaxed", "PointMassState", "RotaryState", "RigidBodyState", "ObstacleBase", "RigidBodyPose", "StanceFSMParameters",
             "RobotFootParameters", "WalkParameters", "WalkMPC", "WalkMPC", "WalkState", "PepperRobot", "PepperMotion", "PepperMPC", "PepperState",
             "WBCParameters", "IKMotion", "IKPlanar", "IKState", "KKTParameters", "Solution", "QPOases", "QPOases", "QPMad", "QuadProg">>
Default(c) == CASE c = "WalkMPC" -> "MPCParameters" [] c = "WalkState" -> "ModelState" [] c = "PepperRobot" -> "RobotParameters"
                [] c = "PepperMotion" -> "MotionParameters" [] c = "PepperMPC" -> "MPCParameters" [] c = "PepperState" -> "ModelState"
                [] c = "IKMotion" -> "MotionParameters" [] c \in {"IKPlanar", "IKState"} -> "GeneralizedCoordinates"
                [] c \in {"KKTParameters", "QPOases", "QPMad", "QuadProg"} -> "SolverParameters" [] OTHER -> c
StrictByDefault(c) == c # "Relaxed"

\* ------------------------------------------------------------- values
\* t = "def": the value of a newly constructed object
V(t, v) == [t |-> t, v |-> v]
Def == V("def", 0)
NaN == [n |-> 0, d |-> 0]
PInf == [n |-> 1, d |-> 0]
Real(i) == CASE R(i, 1, 20) = 1 -> NaN [] R(i, 1, 20) = 2 -> PInf [] R(i, 1, 20) = 3 -> QNeg(PInf)
             [] R(i, 1, 20) = 4 -> [n |-> RandNZ(seed, 5000 * n + i + 7, 99), d |-> 536870912]
             \* more digits than a single precision number has
             [] R(i, 1, 20) = 5 -> [n |-> 2 * R(i + 7, 500000000, 1000000000) + 1, d |-> 16777216]
             \* very large and very small: d = 0, |n| > 1 stands for 2^(|n| - 1100) with the sign of n
             [] R(i, 1, 20) = 6 -> [n |-> (IF R(i + 7, 0, 1) = 0 THEN 1 ELSE -1) * R(i + 8, 100, 2100), d |-> 0]
             [] OTHER -> Q(R(i + 1, -2000, 2000), 2 ^ R(i + 2, 0, 10))
\* sizes at which the representation in a file changes: 15 / 16, 31 / 32, 255 / 256
Texts == <<"", "a", "some text", "UPPER_and_123", "x: y [1, 2]", "true", "0.5", "-1",
           "thirty one characters as a text", "thirty two characters, as a text", " - leading: 'quotes' \"both\" # no comment",
           "a text of two hundred and fifty six characters a text of two hundred and fifty six characters a text of two hundred and fifty six characters a text of two hundred and fifty six characters a text of two hundred and fifty six characters a text of two hundred">>
\* the number of elements of an array
Size(i, hi) == CASE R(i, 1, 25) = 1 -> RandOf(<<15, 16, 17, 31, 32, 33>>, seed, 5000 * n + i + 1) [] R(i, 1, 25) = 2 -> RandOf(<<255, 256, 300>>, seed, 5000 * n + i + 1)
                  [] OTHER -> R(i, 0, hi)
RECURSIVE RandVals(_, _, _)
RandVal(e, i) ==
    CASE e.kind = "num" -> V("num", Real(i))
      [] e.kind = "nat" -> V("int", QI(RandOf(<<0, 1, 100, 127, 128, 255, 256, 65535, 65536, 2147483647, R(i + 3, 0, 100000)>>, seed, 5000 * n + i)))
      [] e.kind = "int" -> V("int", QI(RandOf(<<0, -1, 1, -32, -33, -128, -129, -32769, 300, 70000, -2147483647, R(i + 3, -100000, 100000)>>, seed, 5000 * n + i)))
      [] e.kind = "bool" -> V("bool", R(i, 0, 1) = 1)
      [] e.kind = "str" -> V("str", RandOf(Texts, seed, 5000 * n + i))
      [] e.kind = "enum" -> V("int", QI(R(i, 0, e.z)))
      [] e.kind = "vec" -> V("arr", [j \in 1..(IF e.z = -1 THEN Size(i, 20) ELSE e.z) |-> V("num", Real(i + 3 * j))])
      [] e.kind = "list" -> V("arr", [j \in 1..Size(i, 18) |-> V("num", Real(i + 3 * j))])
      [] e.kind = "strs" -> V("arr", [j \in 1..Size(i, 4) |-> V("str", RandOf(Texts, seed, 5000 * n + i + j))])
      [] e.kind = "table" -> V("arr", [j \in 1..(IF R(i, 1, 20) = 1 THEN 17 ELSE R(i, 0, 3)) |-> V("arr", [l \in 1..R(i + j, 0, 3) |-> V("str", RandOf(Texts, seed, 5000 * n + i + 5 * j + l))])])
      [] e.kind = "mat" -> LET r == IF e.z = 0 THEN (IF R(i, 1, 12) = 1 THEN R(i + 9, 4, 18) ELSE R(i, 0, 3)) ELSE e.z \div 10
                               c == IF e.z = 0 THEN (IF R(i, 1, 12) \in {1, 2} THEN R(i + 8, 4, 18) ELSE R(i + 1, 1, 4)) ELSE e.z % 10
                           IN V("mat", [a \in 1..r |-> [b \in 1..c |-> Real(i + 3 * (19 * a + b))]])
      [] e.kind = "obj" -> V("obj", RandVals(Schemas[e.c], i, 1))
RandVals(s, i, j) == IF j > Len(s) THEN <<>> ELSE <<[k |-> s[j].k, v |-> RandVal(s[j], i + 70 * j)]>> \o RandVals(s, i, j + 1)
\* parameters which are valid (or nearly valid)
Nat1(k, v) == [k |-> k, v |-> V("int", QI(v))]
RandObj(c, i) ==
    IF c = "WalkMPC" THEN
        LET sub == R(i, 1, 60) f(x) == sub * R(i + x, 0, 20) + IF R(i + x + 5, 1, 8) = 1 THEN R(i + x + 9, 1, 9) ELSE 0
        IN <<Nat1("preview_horizon_length", R(i + 1, 0, 40)), Nat1("sampling_time_ms", f(20)), Nat1("subsampling_time_ms", sub), Nat1("tds_sampling_time_ms", f(40))>>
    ELSE IF c = "PepperMPC" THEN <<Nat1("preview_horizon_length", R(i + 1, 0, 40)), Nat1("sampling_time_ms", R(i + 2, 0, 3000)), Nat1("subsampling_time_ms", R(i + 3, 1, 3000))>>
    ELSE IF c \in {"RobotFootParameters", "PepperRobot"} THEN
        LET s == Schemas[c] r == RandVals(s, i, 1) IN
        [j \in 1..Len(s) |-> IF s[j].kind = "num" THEN [r[j] EXCEPT !.v = V("num", Q(R(i + 100 + j, 0, 200), 16))] ELSE r[j]]
    ELSE RandVals(Schemas[c], i, 1)

\* ------------------------------------------------------- value <-> file
Row(m, r) == [b \in 1..Len(m[r]) |-> V("num", m[r][b])]
RECURSIVE Flat(_, _)
Flat(m, r) == IF r > Len(m) THEN <<>> ELSE Row(m, r) \o Flat(m, r + 1)
\* numbers of columns of matrices without rows are not preserved
NCols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
RECURSIVE Enc(_)
EncMap(vals) == V("map", [j \in 1..Len(vals) |-> [k |-> vals[j].k, v |-> Enc(vals[j].v)]])
Enc(v) == CASE v.t = "mat" -> V("map", <<[k |-> "cols", v |-> V("int", QI(NCols(v.v)))], [k |-> "rows", v |-> V("int", QI(Len(v.v)))],
                                         [k |-> "data", v |-> V("arr", Flat(v.v, 1))]>>)
            [] v.t = "obj" -> EncMap(v.v)
            [] OTHER -> v
Lookup(map, k) == LET s == SelectSeq(map, LAMBDA p : p.k = k) IN IF s = <<>> THEN V("none", 0) ELSE s[1].v

\* reading: a sequence of values, or failure
OK(v) == [ok |-> TRUE, v |-> v]
Fail == [ok |-> FALSE, v |-> <<>>]
AllNum(a) == \A j \in 1..Len(a) : a[j].t = "num"
AllStr(a) == \A j \in 1..Len(a) : a[j].t = "str"
DecMat(m, z) ==
    LET r == Lookup(m, "rows") c == Lookup(m, "cols") d == Lookup(m, "data") IN
    IF r.t # "int" \/ c.t # "int" \/ d.t # "arr" THEN Fail
    ELSE IF ~AllNum(d.v) \/ Len(d.v) # r.v.n * c.v.n THEN Fail
    \* sizes known to the class
    ELSE IF r.v.n < 0 \/ c.v.n < 0 \/ (z # 0 /\ z # 10 * r.v.n + c.v.n) THEN Fail
    ELSE OK(V("mat", [a \in 1..r.v.n |-> [b \in 1..c.v.n |-> d.v[(a - 1) * c.v.n + b].v]]))
\* (the only number which takes the place of a text)
TextOf(x) == IF x = Q(1, 2) THEN "0.5" ELSE "?"
\* an object with the defaults of its class: a missing member has the defaults of its own class
DefAll(s) == [j \in 1..Len(s) |-> [k |-> s[j].k, v |-> Def]]
RECURSIVE Dec(_, _, _), DecAll(_, _, _)
Dec(e, v, strict) ==
    CASE e.kind = "num" -> IF v.t \in {"num", "int"} THEN OK(V("num", v.v)) ELSE Fail
      [] e.kind \in {"nat", "int", "enum"} -> IF v.t = "int" THEN OK(v) ELSE Fail
      [] e.kind = "bool" -> IF v.t = "bool" THEN OK(v) ELSE Fail
      [] e.kind = "str" -> IF v.t = "str" THEN OK(v)
                            ELSE IF Yaml /\ v.t = "num" THEN OK(V("str", TextOf(v.v))) ELSE Fail
      [] e.kind = "vec" -> IF v.t = "arr" THEN (IF AllNum(v.v) /\ e.z \in {-1, Len(v.v)} THEN OK(v) ELSE Fail) ELSE Fail
      [] e.kind = "list" -> IF v.t = "arr" THEN (IF AllNum(v.v) THEN OK(v) ELSE Fail) ELSE Fail
      [] e.kind = "strs" -> IF v.t = "arr" THEN (IF AllStr(v.v) THEN OK(v) ELSE Fail) ELSE Fail
      [] e.kind = "table" -> IF v.t = "arr" THEN OK(v) ELSE Fail
      [] e.kind = "mat" -> IF v.t = "map" THEN DecMat(v.v, e.z) ELSE Fail
      [] e.kind = "obj" -> IF v.t = "map" THEN DecAll(Schemas[e.c], v.v, strict) ELSE Fail
DecAll(s, map, strict) ==
    LET one(j) == LET v == Lookup(map, s[j].k) IN
                  IF v.t = "none"
                  THEN IF strict THEN Fail
                       ELSE OK(IF s[j].kind = "obj" THEN V("obj", DefAll(Schemas[s[j].c])) ELSE Def)
                  ELSE Dec(s[j], v, strict)
        res == [j \in 1..Len(s) |-> one(j)]
    IN IF \E j \in 1..Len(s) : ~res[j].ok THEN Fail
       ELSE OK(V("obj", [j \in 1..Len(s) |-> [k |-> s[j].k, v |-> res[j].v]]))
Sec(name) == SelectSeq(file, LAMBDA p : p.k = name)
Get(vals, k) == Lookup(vals, k)
\* combinations of parameters which are rejected; defaults are multiples of 100 ms
Ms(vals, k) == LET v == Get(vals, k) IN IF v.t = "def" THEN 100 ELSE v.v.n
Valid(c, vals) == c = "WalkMPC" => Ms(vals, "sampling_time_ms") % Ms(vals, "subsampling_time_ms") = 0
                                /\ Ms(vals, "tds_sampling_time_ms") % Ms(vals, "subsampling_time_ms") = 0
ReadSec(c, name, strict) ==
    LET s == Sec(name)
        r == IF s = <<>> THEN (IF strict THEN Fail ELSE OK(V("obj", DefAll(Schemas[c]))))
             ELSE IF s[1].v.t # "map" THEN Fail ELSE DecAll(Schemas[c], s[1].v.v, strict)
    IN IF ~r.ok THEN Fail
       \* nothing is derived when there is no section
       ELSE IF s # <<>> /\ ~Valid(c, r.v.v) THEN Fail ELSE OK(r.v.v)

\* ------------------------------------------------- derived quantities
Half(a) == QMul(a, Q(1, 2))
Sym(a) == <<QNeg(a), a>>
NumOf(vals, k) == Get(vals, k).v
RECURSIVE Known(_)
Known(vals) == \A j \in 1..Len(vals) : vals[j].v.t # "def" /\ (vals[j].v.t = "obj" => Known(vals[j].v.v))
Sqr2(a) == QMul(QMul(a, a), Q(1, 2))
Derived(c, vals) ==
    IF ~Known(vals) THEN 77777777
    ELSE CASE c = "RobotFootParameters" ->
            LET h == Half(NumOf(vals, "feet_dist_default")) l == Half(NumOf(vals, "foot_length")) w == Half(NumOf(vals, "foot_width"))
                st == NumOf(vals, "max_step_len") lo == NumOf(vals, "min_feet_dist") hi == NumOf(vals, "max_feet_dist") IN
            << <<Sym(l), Sym(w)>>, <<Sym(l), Sym(QAdd(w, h))>>,
               \* bounds for the left and right feet: after a single support, aligned, in a double support
               <<Sym(st), <<lo, hi>> >>, <<Sym(st), <<QNeg(hi), QNeg(lo)>> >>,
               << <<QZero, QZero>>, <<h, h>> >>, << <<QZero, QZero>>, <<QNeg(h), QNeg(h)>> >>,
               << <<QZero, QZero>>, <<h, h>> >>, << <<QZero, QZero>>, <<QNeg(h), QNeg(h)>> >>,
               \* from the ADS to the feet and back
               <<QZero, h>>, <<QZero, QNeg(h)>>, <<QZero, QNeg(h)>>, <<QZero, h>> >>
         \* squares, with sign: the largest square in a circle
         [] c = "PepperRobot" ->
            LET b(k) == <<Sym(Sqr2(NumOf(vals, k))), Sym(Sqr2(NumOf(vals, k)))>> IN
            <<b("base_radius"), b("max_nominal_base_velocity"), b("max_nominal_base_acceleration"), Get(vals, "body_bounds").v>>
         [] c = "WalkMPC" -> <<Q(Ms(vals, "subsampling_time_ms"), 1000)>>
         [] c = "WBCParameters" -> <<Q(Ms(vals, "control_interval_ms"), 1000)>>
         [] c = "PepperMPC" -> <<Q(Ms(vals, "sampling_time_ms"), 1000), Q(Ms(vals, "subsampling_time_ms"), 1000)>>
         [] OTHER -> <<>>

\* ---------------------------------------------------------------- steps
\* two objects of one class and one of another
ClassOf(o) == IF o = 3 THEN cls[2] ELSE cls[1]
Init ==
    /\ seed \in SeedLo..SeedHi
    /\ n = 0
    /\ cls = <<RandOf(Classes, seed, 1), RandOf(Classes, seed, 2)>>
    /\ objs = <<Fail, Fail, Fail>>
    /\ file = <<>>
    /\ bad = FALSE
    /\ log = <<[op |-> "setup", classes |-> <<cls[1], cls[1], cls[2]>>, exp |-> [ok |-> TRUE]]>>

Out(v) == v
\* every second history repeats the cycle: fill an object, write it, edit the file, read it, edit or read
Focus == seed % 2 = 0
Phase == n % 5
Fill ==
    /\ n < MaxOps
    /\ Focus => Phase = 0
    /\ LET o == IF Focus THEN 1 ELSE R(1, 1, 3) c == ClassOf(o) v == RandObj(c, 100) IN
       /\ Focus \/ R(2, 1, 4) = 1 \/ ~\E k \in 1..3 : objs[k].ok
       /\ objs' = [objs EXCEPT ![o] = OK(v)]
       /\ log' = Append(log, [op |-> "fill", o |-> o, vals |-> v, exp |-> [vals |-> v]])
    /\ n' = n + 1
    /\ UNCHANGED <<seed, cls, file, bad>>

Filled == {o \in 1..3 : objs[o].ok /\ Known(objs[o].v)}
Names == <<"S1", "S2", "section three">>
Write ==
    /\ n < MaxOps
    /\ Focus \/ ~(R(2, 1, 4) = 1 \/ ~\E k \in 1..3 : objs[k].ok)
    /\ IF Focus THEN Phase = 1 ELSE R(3, 1, 7) <= 3
    /\ IF Filled = {} THEN /\ UNCHANGED <<file, log>>
       ELSE LET o == IF Focus THEN 1 ELSE RandOf(SetToSeq(Filled), seed, 5000 * n + 4)
                how == IF Focus /\ R(16, 1, 4) # 1 THEN RandOf(<<"file", "file_named">>, seed, 5000 * n + 5)
                       ELSE RandOf(<<"writer", "writer_named", "file", "file_named">>, seed, 5000 * n + 5)
                named == how \in {"writer_named", "file_named"}
                new == how \in {"file", "file_named"} \/ file = <<>>
                name == IF named THEN RandOf(Names, seed, 5000 * n + 6) ELSE Default(ClassOf(o))
                sec == <<[k |-> name, v |-> EncMap(objs[o].v)]>>
            IN IF ~new /\ Sec(name) # <<>> THEN UNCHANGED <<file, log>>
               ELSE /\ file' = IF new THEN sec ELSE file \o sec
                    /\ log' = Append(log, [op |-> "write", o |-> o, how |-> how, new |-> new, name |-> name, order |-> file', exp |-> [file |-> file']])
    /\ n' = n + 1
    /\ UNCHANGED <<seed, cls, objs, bad>>

\* ---------------------------------------------- changes made by a person
RemoveAt1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Extra(i) == [k |-> "unknown_" \o ToString(i), v |-> RandOf(<<V("int", QI(5)), V("str", "a"), V("arr", <<V("num", QZero)>>), V("map", <<[k |-> "position", v |-> V("bool", TRUE)]>>)>>, seed, 5000 * n + i)]
\* somewhere in a map: the map itself, or one of the maps in it
RECURSIVE HasMat(_)
IsMat(v) == v.t = "map" /\ Lookup(v.v, "rows").t = "int" /\ Lookup(v.v, "cols").t = "int"
HasMat(v) == v.t = "map" /\ \E j \in 1..Len(v.v) : IsMat(v.v[j].v) \/ HasMat(v.v[j].v)
RECURSIVE EditMap(_, _, _)
EditMap(m, kind, i) ==
    LET maps == {j \in 1..Len(m) : m[j].v.t = "map"} IN
    IF maps # {} /\ R(i, 1, 2) = 1 /\ ~(kind = "dims" /\ \E j \in maps : IsMat(m[j].v))
    THEN LET j == RandOf(SetToSeq(maps), seed, 5000 * n + i + 1) IN [m EXCEPT ![j].v.v = EditMap(@, kind, i + 10)]
    ELSE LET j == R(i + 2, 1, Max2(1, Len(m))) IN
    IF m = <<>> THEN m ELSE
    CASE kind = "remove" -> RemoveAt1(m, j)
      [] kind = "add" -> SubSeq(m, 1, j - 1) \o <<Extra(i + 3)>> \o SubSeq(m, j, Len(m))
      [] kind = "reverse" -> Reverse(m)
      [] kind = "rotate" -> SubSeq(m, j, Len(m)) \o SubSeq(m, 1, j - 1)
      \* an array gets longer or shorter
      [] kind = "resize" -> IF m[j].v.t = "arr" /\ m[j].k # "table"
                            THEN [m EXCEPT ![j].v.v = IF @ # <<>> /\ R(i + 4, 1, 2) = 1 THEN Tail(@) ELSE IF @ = <<>> THEN @ ELSE Append(@, @[1])] ELSE m
      \* other numbers of rows and columns
      [] kind = "dims" ->
            LET mats == {a \in 1..Len(m) : IsMat(m[a].v)} IN
            IF mats = {} THEN m
            ELSE LET a == RandOf(SetToSeq(mats), seed, 5000 * n + i + 5) d == m[a].v.v
                     r == Lookup(d, "rows").v.n c == Lookup(d, "cols").v.n
                     rc == RandOf(<<<<c, r>>, <<r + 1, c>>, <<r, c + 1>>, <<Max2(0, r - 1), c>>, <<r, Max2(0, c - 1)>>, <<1, r * c>>, <<-r, -c>>>>, seed, 5000 * n + i + 6)
                 IN [m EXCEPT ![a].v.v = [b \in 1..Len(d) |-> IF d[b].k = "rows" THEN [d[b] EXCEPT !.v.v = QI(rc[1])]
                                                               ELSE IF d[b].k = "cols" THEN [d[b] EXCEPT !.v.v = QI(rc[2])] ELSE d[b]]]
      \* a wrong type
      [] kind = "type" -> IF m[j].v.t \in {"num", "int", "arr", "bool"} THEN [m EXCEPT ![j].v = V("str", "text")]
                          ELSE [m EXCEPT ![j].v = V("num", Q(1, 2))]
      [] kind = "value" -> IF m[j].v.t = "bool" THEN [m EXCEPT ![j].v.v = ~@] ELSE m
\* numbers written as integers, several sections in one map, the order of sections are up to the author
Edit ==
    /\ n < MaxOps
    /\ Focus \/ ~(R(2, 1, 4) = 1 \/ ~\E k \in 1..3 : objs[k].ok)
    /\ IF Focus THEN Phase = 2 \/ (Phase = 4 /\ R(3, 1, 2) = 1) ELSE R(3, 1, 7) \in {4, 5}
    /\ IF file = <<>> THEN UNCHANGED <<file, log>>
       ELSE LET s == R(7, 1, Len(file))
                kind == IF HasMat(file[s].v) /\ R(17, 1, 3) = 1 THEN "dims"
                        ELSE RandOf(<<"remove", "remove", "add", "reverse", "rotate", "resize", "type", "value", "rename", "sections">>, seed, 5000 * n + 8)
            IN /\ file' = CASE kind = "rename" -> IF Sec("other") = <<>> THEN [file EXCEPT ![s].k = "other"] ELSE file
                            [] kind = "sections" -> Reverse(file)
                            [] OTHER -> [file EXCEPT ![s].v.v = EditMap(@, kind, 20)]
               /\ log' = Append(log, [op |-> "edit", kind |-> kind, file |-> file', one |-> R(9, 1, 2) = 1, ints |-> R(10, 1, 2) = 1, exp |-> [ok |-> TRUE]])
    /\ n' = n + 1
    /\ UNCHANGED <<seed, cls, objs, bad>>

Read ==
    /\ n < MaxOps
    /\ Focus \/ ~(R(2, 1, 4) = 1 \/ ~\E k \in 1..3 : objs[k].ok)
    /\ IF Focus THEN Phase = 3 \/ (Phase = 4 /\ R(3, 1, 2) = 2) ELSE R(3, 1, 7) >= 6
    /\ IF file = <<>> THEN UNCHANGED <<objs, log>>
       ELSE LET o == IF Focus THEN R(11, 1, 2) ELSE R(11, 1, 3) c == ClassOf(o)
                s == R(12, 1, Len(file))
                \* sometimes a section which does not exist
                name == IF Focus THEN file[s].k ELSE IF R(13, 1, 8) = 1 THEN "S2" ELSE IF R(13, 1, 8) <= 3 THEN Default(c) ELSE file[s].k
                \* (a solution has no defaults)
                mode == IF c = "Solution" THEN "strict" ELSE RandOf(<<"default", "strict", "relaxed">>, seed, 5000 * n + 14)
                strict == mode = "strict" \/ (mode = "default" /\ StrictByDefault(c))
                how == IF Focus /\ name # Default(c) THEN RandOf(<<"reader_named", "file_named", "constructor">>, seed, 5000 * n + 15)
                       ELSE RandOf(<<"reader", "reader_named", "file", "file_named", "constructor">>, seed, 5000 * n + 15)
                nm == IF how \in {"reader", "file"} THEN Default(c) ELSE name
                res == ReadSec(c, nm, strict)
            IN /\ objs' = [objs EXCEPT ![o] = res]
               /\ log' = Append(log, [op |-> "read", o |-> o, how |-> how, name |-> nm, mode |-> mode, defs |-> IF res.ok THEN res.v ELSE <<>>,
                       exp |-> IF res.ok THEN [vals |-> res.v, derived |-> Derived(c, res.v)] ELSE [throws |-> TRUE]])
    /\ n' = n + 1
    /\ UNCHANGED <<seed, cls, file, bad>>

Next == Fill \/ Write \/ Edit \/ Read
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- invariants
\* what is written can be read back by an object of the same class, strictly or not
\* (NaN: values are compared as records)
RECURSIVE SameV(_, _)
SameV(a, b) == /\ a.t = b.t
               /\ CASE a.t = "obj" -> Len(a.v) = Len(b.v) /\ \A j \in 1..Len(a.v) : a.v[j].k = b.v[j].k /\ SameV(a.v[j].v, b.v[j].v)
                    [] OTHER -> a.v = b.v
RoundTrip == \A o \in Filled : \A strict \in BOOLEAN :
    LET r == DecAll(Schemas[ClassOf(o)], EncMap(objs[o].v).v, strict) IN r.ok /\ SameV(r.v, V("obj", objs[o].v))
\* the order of entries does not matter; additional entries do not matter; relaxed reading succeeds if strict reading does, with the same result
OrderFree == \A j \in 1..Len(file) : file[j].v.t = "map" =>
    LET m == file[j].v.v c == cls[1] a == DecAll(Schemas[c], m, TRUE) IN
    /\ DecAll(Schemas[c], Reverse(m), TRUE) = a
    /\ DecAll(Schemas[c], <<Extra(3)>> \o m, TRUE) = a
    /\ a.ok => DecAll(Schemas[c], m, FALSE) = a
Emit == n = MaxOps => EmitCase([machine |-> "config", seed |-> seed, steps |-> log])
=============================================================================
