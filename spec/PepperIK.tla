------------------------------ MODULE PepperIK ------------------------------
(* Whole body controller of the wheeled robot (modules/pepper_ik): state of *)
(* the robot, its kinematic model, commands, and the tasks of the inverse   *)
(* kinematics, for the three placements of the root of the kinematic tree.  *)
(* Joint angles are integers in 1e-8 rad.                                   *)
EXTENDS KinOps
CONSTANTS SeedLo, SeedHi, MaxOps
VARIABLES seed, variant, gc, loaded, saved, wbc, tasks, log
vars == <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes, log>>
Step == Len(log)
K(i) == 700 * Step + i
R(i, lo, hi) == RandInt(seed, K(i), lo, hi)
P(i, seq) == RandOf(seq, seed, K(i))
Rec(e) == log' = Append(log, e)
Unknown == 77777777
Rad(n) == Q(n, 100000000)

(* -------------------------------- the robot -------------------------------- *)
\* limits of positions and velocities as in the URDF files of the robot; child: the link the joint moves
J(name, lo, hi, vel, default) == [name |-> name, lo |-> lo, hi |-> hi, vel |-> vel, default |-> default]
JointTable == <<
    J("KneePitch", -51487200, 51487200, 293276000, "-0.1975011835036236"),
    J("HipPitch", -103847000, 103847000, 293276000, "0.4160023626190753"),
    J("HipRoll", -51487200, 51487200, 227032000, "0.0"),
    J("HeadYaw", -208567000, 208567000, 733998000, "0.0"),
    J("HeadPitch", -70685800, 63704500, 922756000, "0.06850114982656237"),
    J("LShoulderPitch", -208567000, 208567000, 733998000, "1.639454123287812"),
    J("LShoulderRoll", 872665, 156207000, 922756000, "0.12"),
    J("LElbowYaw", -208567000, 208567000, 733998000, "-1.2217007"),
    J("LElbowRoll", -156207000, -872665, 922756000, "-0.52345699"),
    J("LWristYaw", -182387000, 182387000, 1738350000, "0.0"),
    J("RShoulderPitch", -208567000, 208567000, 733998000, "1.639454123287804"),
    J("RShoulderRoll", -156207000, -872665, 922756000, "-0.12"),
    J("RElbowYaw", -208567000, 208567000, 733998000, "1.2217007"),
    J("RElbowRoll", 872665, 156207000, 922756000, "0.52345699"),
    J("RWristYaw", -182387000, 182387000, 1738350000, "0.0") >>
Joint(name) == CHOOSE j \in {JointTable[i] : i \in 1..15} : j.name = name
LegJoints == <<"KneePitch", "HipPitch", "HipRoll">>
HeadJoints == <<"HeadYaw", "HeadPitch">>
Arms == <<"LShoulderPitch", "LShoulderRoll", "LElbowYaw", "LElbowRoll", "LWristYaw",
          "RShoulderPitch", "RShoulderRoll", "RElbowYaw", "RElbowRoll", "RWristYaw">>
\* the order of traversal of the tree
Order == IF variant = "torso" THEN HeadJoints \o <<"HipRoll", "HipPitch", "KneePitch">> \o Arms ELSE LegJoints \o HeadJoints \o Arms
JointNo(name) == CHOOSE i \in 1..15 : Order[i] = name
Arm(side) == << <<side \o "ShoulderPitch", "torso", side \o "Shoulder">>, <<side \o "ShoulderRoll", side \o "Shoulder", side \o "Bicep">>,
                <<side \o "ElbowYaw", side \o "Bicep", side \o "Elbow">>, <<side \o "ElbowRoll", side \o "Elbow", side \o "ForeArm">>,
                <<side \o "WristYaw", side \o "ForeArm", IF side = "L" THEN "l_wrist" ELSE "r_wrist">> >>
HeadLinks == << <<"HeadYaw", "torso", "Neck">>, <<"HeadPitch", "Neck", "Head">> >>
LegLinks == IF variant = "torso" THEN << <<"HipRoll", "torso", "Hip">>, <<"HipPitch", "Hip", "Pelvis">>, <<"KneePitch", "Pelvis", "Tibia">> >>
            ELSE << <<"KneePitch", "Tibia", "Pelvis">>, <<"HipPitch", "Pelvis", "Hip">>, <<"HipRoll", "Hip", "torso">> >>
\* <<joint, parent, child>>
LinkTable == IF variant = "torso" THEN HeadLinks \o LegLinks \o Arm("L") \o Arm("R") ELSE LegLinks \o HeadLinks \o Arm("L") \o Arm("R")
RootLink == IF variant = "torso" THEN "torso" ELSE "Tibia"
Planar == variant = "planar"
NumRootBodies == IF Planar THEN 3 ELSE 2
NumRoot == IF Planar THEN 3 ELSE 6
Names == [i \in 1..(NumRootBodies + 15) |->
            IF i < NumRootBodies THEN "virtual" \o ToString(i) ELSE IF i = NumRootBodies THEN RootLink ELSE LinkTable[i - NumRootBodies][3]]
LinkNo(name) == CHOOSE i \in 1..Len(Names) : Names[i] = name
FixedNames == <<"base_footprint", "CameraTop_optical_frame">>
Link(name) == IF \E i \in 1..2 : FixedNames[i] = name THEN [fixed |-> TRUE, i |-> CHOOSE i \in 1..2 : FixedNames[i] = name]
              ELSE [fixed |-> FALSE, i |-> LinkNo(name)]
TreeOf(s) ==
    LET n == NumRootBodies + 15
        fixed(k, parent) == [parent |-> LinkNo(parent), R |-> RPY(Angles[RandInt(s, 20 + k, 1, 4)], Angles[RandInt(s, 30 + k, 1, 4)], RandOf(Angles, s, 40 + k)),
                             p |-> QV(RandV(s, 50 + 5 * k, 3, 2))]
    IN [n |-> n,
        parent |-> [i \in 1..n |-> IF i <= NumRootBodies THEN i - 1 ELSE LinkNo(LinkTable[i - NumRootBodies][2])],
        custom |-> [i \in 1..n |-> FALSE],
        dof |-> [i \in 1..n |-> IF i <= NumRootBodies /\ ~Planar THEN 3 ELSE 1],
        extra |-> 0,
        mass |-> [i \in 1..n |-> IF i < NumRootBodies THEN QZero ELSE QI(RandInt(s, 100 + i, 1, 3))],
        com |-> [i \in 1..n |-> IF i < NumRootBodies THEN QZeroV(3) ELSE QV(RandV(s, 150 + 4 * i, 3, 2))],
        fixed |-> <<fixed(1, "Tibia"), fixed(2, "Head")>>]
BodyLinks == SelectSeq([i \in 1..tree.n |-> i], LAMBDA i : i >= NumRootBodies /\ Names[i] # "Tibia")
BaseLinks == <<LinkNo("Tibia")>>
BaseLink == Link("base_footprint")
BasePose == LinkPose(BaseLink)

(* ----------------------------- symbolic numbers ----------------------------- *)
\* sums of rationals multiplied with angles (of given sine and cosine) and the sine and cosine of the direction of the wheels
T(q, f) == [q |-> q, f |-> f]
Sym(ts) == [terms |-> ts]
At(a) == [k |-> "at", c |-> a.c, s |-> a.s]
SinW == [k |-> "sinw"]
CosW == [k |-> "cosw"]
Rat(q) == [k |-> "rat", q |-> q]

(* ------------------------------- coordinates ------------------------------- *)
\* A state: p - position of the root, rpy - its orientation (angles with rational sine and cosine), plus: added to the yaw,
\* q - joint angles; def: the default state
NoAng == Angles[1]
Default == [def |-> TRUE, p |-> QZeroV(3), rpy |-> <<NoAng, NoAng, NoAng>>, plus |-> QZero, q |-> ZeroV(15)]
RandPos(o) == LET z == R(o + 3, -5, 5) IN <<Q(R(o + 1, -9, 9), 4), Q(R(o + 2, -9, 9), 4), IF Planar THEN QZero ELSE Q(z, 4)>>
RandRPY(o) == IF Planar THEN <<NoAng, NoAng, P(o, Angles)>> ELSE <<P(o, Angles), Angles[R(o + 1, 1, 4)], Angles[R(o + 2, 1, 4)]>>
\* joint angles: somewhere inside of the bounds, or next to one of them
Inside(j, o) == LET b == JointTable[CHOOSE i \in 1..15 : JointTable[i].name = Order[j]]
                    w == (b.hi - b.lo) \div 64
                IN b.lo + w * R(o, 1, 63)
Outlier(j, o) == LET b == Joint(Order[j]) IN
    CASE R(o, 0, 5) = 0 -> b.hi [] R(o, 0, 5) = 1 -> b.lo [] R(o, 0, 5) = 2 -> b.hi + 5 [] R(o, 0, 5) = 3 -> b.lo - 5
      [] R(o, 0, 5) = 4 -> b.hi + P(o + 1, <<20, 100000, 20000000>>) [] OTHER -> b.lo - P(o + 1, <<20, 100000, 20000000>>)
RandJoints(o) == LET k == R(o, -10, 15) IN [j \in 1..15 |-> IF j = k THEN Outlier(j, o + 20) ELSE Inside(j, o + j)]
\* joint angles which can be reached from the given ones in dt (in ms); one of the joints may be too fast
Nearby(q, dt, o) ==
    LET k == R(o, -8, 15) IN
    [j \in 1..15 |->
        LET b == Joint(Order[j])
            step == (b.vel \div 1000) * dt
            mid == (b.lo + b.hi) \div 2
            dir == IF q[j] > mid THEN -1 ELSE 1
        IN IF j = k THEN q[j] + dir * (step + P(o + 20, <<-1000, 1000>>))
           ELSE LET lim == Min2(step, b.hi - b.lo) \div 4 IN q[j] + dir * (lim \div 8) * R(o + j, 0, 8)]
PositionsOK(q) == \A j \in 1..15 : LET b == Joint(Order[j]) IN q[j] >= b.lo - 10 /\ q[j] <= b.hi + 10
VelocitiesOK(from, to, dt) == \A j \in 1..15 : Abs(to[j] - from[j]) <= (Joint(Order[j]).vel \div 1000) * dt
JointValues(g) == IF g.def THEN [j \in 1..15 |-> [lit |-> Joint(Order[j]).default]] ELSE [j \in 1..15 |-> Rad(g.q[j])]
RootMatrix(g) == RPY(g.rpy[1], g.rpy[2], g.rpy[3])
DefaultPosition == IF variant = "torso" THEN <<[lit |-> "0.0135554392293566"], [lit |-> "0.0"], [lit |-> "0.819715156461154"]>> ELSE QZeroV(3)
\* what can be seen of a state
Yaw(g) == Sym(<<T(QOne, <<At(g.rpy[3])>>), T(g.plus, <<>>)>>)
Coords(g) ==
    [p |-> IF g.def THEN DefaultPosition ELSE g.p,
     yaw |-> IF ~Planar THEN Unknown ELSE Yaw(g),
     \* only the pitch is not zero by default
     pitch |-> IF g.def /\ ~Planar THEN [lit |-> IF variant = "torso" THEN "0.05" ELSE "0.0"] ELSE Unknown,
     R |-> IF g.def \/ g.plus.n # 0 THEN Unknown ELSE RootMatrix(g),
     joints |-> JointValues(g)]
Inp(g) == [p |-> g.p, rpy |-> g.rpy, plus |-> g.plus, q |-> [j \in 1..15 |-> Rad(g.q[j])]]

(* --------------------------------- model --------------------------------- *)
NewPoses == [i \in 1..tree.n |-> MkPose(seed, K(30 + 12 * i))]
NewAxes == [i \in 1..tree.n |-> [k \in 1..tree.dof[i] |-> MkAxis(seed, K(300 + 24 * i + 8 * k))]]
Tail2(v) == <<v[1], v[2]>>
UpdateExp(g) == [updates |-> 1, coords |-> Coords(g)]
NoSave == [def |-> FALSE]

Tags == <<"CameraTop_optical_frame", "base_footprint", "Tibia", "torso", "l_wrist", "Head">>
Gains == <<QOne, QOne, QI(2), Q(1, 2), QI(3), QZero, QI(-1)>>
Masks == <<7, 1, 2, 3, 4, 5, 6, 7>>
TaskKinds == <<"BaseCoM", "BaseOrient", "BodyCoM", "FixArms", "FixHead", "Bounds", "Reference",
               "TagOrient", "TagAngular", "TagComplete", "TagPose", "TagPose3">>
MkTask(o, kind) == [kind |-> kind, gain |-> P(o + 1, Gains), k |-> P(o + 2, Gains), tag |-> P(o + 3, Tags),
              mask |-> P(o + 4, Masks), rpy |-> <<P(o + 5, Angles), Angles[R(o + 6, 1, 4)], Angles[R(o + 7, 1, 4)]>>,
              \* reference of the joints; by default that of the robot
              ref |-> IF RandBool(seed, K(o + 8)) THEN <<>> ELSE [j \in 1..15 |-> Inside(j, o + 20 + j)]]

InitWBC == [int |-> QZero, parsed |-> FALSE, started |-> FALSE, vel |-> <<>>, des |-> <<>>,
            mp |-> [base |-> QZeroV(3), body |-> QZeroV(3), rpy |-> <<NoAng, NoAng, NoAng>>], made |-> FALSE]
Init == /\ seed \in SeedLo..SeedHi
        /\ variant = RandOf(<<"torso", "tibia", "planar">>, seed, 3)
        /\ tree = TreeOf(seed)
        /\ gc = Default
        /\ loaded = FALSE
        /\ saved = NoSave
        /\ wbc = InitWBC
        /\ tasks = <<>>
        /\ pose = <<>>
        /\ axes = <<>>
        /\ log = <<>>
Rest(S) == UNCHANGED S

\* state alone: position and orientation of the root
CoordsOp ==
    LET bad == Planar /\ R(1, 0, 3) = 0
        p == IF bad /\ R(2, 0, 1) = 0 THEN <<QOne, QOne, QOne>> ELSE RandPos(10)
        rpy == IF bad /\ R(2, 0, 1) = 1 THEN (IF RandBool(seed, K(3)) THEN <<Angles[2], NoAng, NoAng>> ELSE <<NoAng, Angles[5], NoAng>>) ELSE RandRPY(20)
        g == [def |-> FALSE, p |-> p, rpy |-> rpy, plus |-> QZero, q |-> RandJoints(30)]
    IN /\ Rec([op |-> "coords", g |-> Inp(g), exp |-> IF bad THEN [throws |-> TRUE] ELSE Coords(g) @@ [size |-> NumRoot + 15]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* columns of a matrix for one placement of the root are put in the order of another one; columns of the root are not defined
OrderOf(v) == IF v = "torso" THEN HeadJoints \o <<"HipRoll", "HipPitch", "KneePitch">> \o Arms ELSE LegJoints \o HeadJoints \o Arms
RootOf(v) == IF v = "planar" THEN 3 ELSE 6
Reorder ==
    LET from == P(1, <<"torso", "tibia", "planar">>)
        m == [r \in 1..R(2, 1, 3) |-> [c \in 1..(RootOf(from) + 15) |-> 100 * r + c]]
        no(name) == RootOf(from) + (CHOOSE i \in 1..15 : OrderOf(from)[i] = name)
    IN /\ Rec([op |-> "reorder", from |-> from, m |-> m,
               exp |-> [m |-> [r \in 1..Len(m) |-> [c \in 1..(NumRoot + 15) |-> IF c <= NumRoot THEN Unknown ELSE m[r][no(Order[c - NumRoot])]]]]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* the kinematic model is read from a file
Load ==
    LET ok == R(1, 0, 3) # 0
        extra == IF R(2, 0, 5) = 0 THEN 1 ELSE 0
        good == ok /\ extra = 0
    IN /\ loaded' = good
       /\ pose' = IF good THEN NewPoses ELSE <<>>
       /\ axes' = IF good THEN NewAxes ELSE <<>>
       /\ Rec([op |-> "load", ok |-> ok, variant |-> variant, tree |-> [tree EXCEPT !.extra = extra], names |-> Names, fixednames |-> FixedNames,
               ndof |-> NumDof + extra, first |-> [i \in 1..tree.n |-> FirstDof(i)], file |-> "robot" \o ToString(R(4, 0, 9)),
               pose |-> pose', axes |-> axes',
               exp |-> [file |-> "robot" \o ToString(R(4, 0, 9)), floating |-> ~Planar, failed |-> ~good,
                        updates |-> IF good THEN 1 ELSE 0, coords |-> IF good THEN Coords(gc) ELSE Unknown]])
       /\ UNCHANGED <<seed, variant, gc, saved, wbc, tasks, tree>>
NewState(o) ==
    LET near == ~gc.def /\ RandBool(seed, K(o))
        dt == P(o + 1, <<10, 100, 1000>>)
        from == IF saved.def THEN saved.q ELSE gc.q
    IN [def |-> FALSE, p |-> RandPos(o + 3), rpy |-> RandRPY(o + 10), plus |-> QZero,
        q |-> IF near THEN Nearby(from, dt, o + 20) ELSE RandJoints(o + 20)]
\* The base has moved sideways with respect to the saved state, such that the wheel in the back turns with nearly the limit of the
\* velocity (6.28319 rad/s, the radius is 7 cm) if this took one second.
Shift == LET d == QVScale(Q(P(651, <<2199, 2200, -2199, -2200, 500>>), 5000), [i \in 1..3 |-> saved.R[i][2]])
             t == LinkNo("Tibia")
         IN [NewPoses EXCEPT ![t] = [R |-> saved.tib.R, p |-> QVAdd(saved.tib.p, d)]]
Update ==
    LET g == NewState(1)
        shift == saved.def /\ RandBool(seed, K(650))
    IN /\ gc' = g
       /\ pose' = IF shift THEN Shift ELSE NewPoses
       /\ axes' = NewAxes
       /\ Rec([op |-> "update", g |-> Inp(g), pose |-> pose', axes |-> axes', exp |-> UpdateExp(g)])
       /\ UNCHANGED <<seed, variant, loaded, saved, wbc, tasks, tree>>
GetState == /\ Rec([op |-> "state", exp |-> Coords(gc)])
            /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* yaw of the base; not defined if the base points up or down
BaseYaw == LET M == BasePose.R
               c2 == QAdd(QMul(M[1][1], M[1][1]), QMul(M[2][1], M[2][1]))
           IN IF QIsZero(c2) THEN Unknown ELSE [angle |-> Sym(<<T(QOne, <<At([c |-> M[1][1], s |-> M[2][1]])>>)>>)]
All == [i \in 1..tree.n |-> i]
Query ==
    LET what == P(1, <<"values", "values", "jbase", "jbody", "jcom", "jorient", "tag", "tag", "torso", "bounds">>)
        tag == P(2, Tags)
        l == Link(tag)
    IN /\ Rec([op |-> "query", what |-> what, tag |-> tag, old |-> <<R(4, 0, 7), R(5, 0, 25)>>,
               exp |-> CASE what = "values" -> [basecom |-> CoMOf(BaseLinks), basemass |-> MassOf(BaseLinks), bodycom |-> CoMOf(BodyLinks), bodymass |-> MassOf(BodyLinks),
                                                com |-> CoMOf(All), mass |-> MassOf(All), R |-> BasePose.R, p |-> BasePose.p, yaw |-> BaseYaw]
                         [] what = "jbase" -> [J |-> CoMJac(BaseLinks)]
                         [] what = "jbody" -> [J |-> CoMJac(BodyLinks)]
                         [] what = "jcom" -> [J |-> CoMJac(All)]
                         [] what = "jorient" -> [J |-> JRot(BaseLink, BasePose.p)]
                         [] what = "tag" -> [R |-> LinkPose(l).R, p |-> LinkPose(l).p, JR |-> JRot(l, LinkPose(l).p), J |-> JAll(l, LinkPose(l).p)]
                         [] what = "torso" -> [p |-> PointOf(Link("torso"), IF variant = "torso" THEN QZeroV(3) ELSE <<Q(-2, 100000), QZero, Q(139, 1000)>>),
                                               R |-> LinkPose(Link("torso")).R]
                         [] what = "bounds" -> [lo |-> [j \in 1..15 |-> Rad(Joint(Order[j]).lo)], hi |-> [j \in 1..15 |-> Rad(Joint(Order[j]).hi)],
                                                vel |-> [j \in 1..15 |-> Rad(Joint(Order[j]).vel)], wheels |-> [i \in 1..3 |-> Q(628319, 100000)]]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>

(* -------------------------------- commands -------------------------------- *)
Save == /\ saved' = [def |-> TRUE, q |-> gc.q, R |-> BasePose.R, p |-> BasePose.p, tib |-> pose[LinkNo("Tibia")], g |-> gc]
        /\ Rec([op |-> "save", exp |-> [ok |-> TRUE]])
        /\ UNCHANGED <<seed, variant, gc, loaded, wbc, tasks, tree, pose, axes>>
\* the rotation which turns the matrix a to the matrix b, multiplied with the sine of its angle
RotError(a, b) == LET E == QMM(b, TrN(a, 3)) IN
    << QDiv(QSub(E[3][2], E[2][3]), QI(2)), QDiv(QSub(E[1][3], E[3][1]), QI(2)), QDiv(QSub(E[2][1], E[1][2]), QI(2)) >>
\* position of a wheel, and sign of its direction: velocity of the wheel along its direction over its radius
Wheel(u, i) ==
    LET px == IF i = 3 THEN Q(-17, 100) ELSE Q(9, 100)
        py == CASE i = 1 -> Q(155, 1000) [] i = 2 -> Q(-155, 1000) [] OTHER -> QZero
        k == Q(100, 7)
        x(s, f) == << T(QMul(s, k), <<Rat(u[1])>> \o f), T(QMul(s, QNeg(QMul(k, py))), <<Rat(u[3])>> \o f) >>
        y(s, f) == << T(QMul(s, k), <<Rat(u[2])>> \o f), T(QMul(s, QMul(k, px)), <<Rat(u[3])>> \o f) >>
    IN CASE i = 1 -> Sym(x(QOne, <<SinW>>) \o y(QI(-1), <<CosW>>))
         [] i = 2 -> Sym(x(QI(-1), <<SinW>>) \o y(QI(-1), <<CosW>>))
         [] OTHER -> Sym(y(QOne, <<>>))
AbsQ(a) == IF a.n < 0 THEN QNeg(a) ELSE a
Limit == Q(628319, 100000)
\* in thousandths, with an error of not more than 2
Milli(a) == LET ip == a.n \div a.d
                frac == a.n % a.d
            IN 1000 * ip + (IF a.d < 2000000 THEN (1000 * frac) \div a.d ELSE frac \div (a.d \div 1000))
\* velocity of the wheel in the back, and a bound of the velocities of the others
BackWheel(u) == (100 * Abs(Milli(u[2]) - (17 * Milli(u[3])) \div 100)) \div 7
AnyWheel(u) == (100 * (Abs(Milli(u[1])) + Abs(Milli(u[2])) + Abs(Milli(u[3])) \div 5)) \div 7
Column(v, k) == [i \in 1..k |-> <<v[i]>>]
Command ==
    LET dt == P(1, <<10, 100, 1000, 1000, 1000>>)
        dtq == Q(dt, 1000)
        dp == IF saved.def THEN QVScale(QInv(dtq), QVSub(BasePose.p, saved.p)) ELSE QZeroV(3)
        w == IF saved.def THEN QVScale(QInv(dtq), RotError(saved.R, BasePose.R)) ELSE QZeroV(3)
        u == IF saved.def THEN QMV(TrN(BasePose.R, 3), <<dp[1], dp[2], w[3]>>) ELSE QZeroV(3)
        bad == ~saved.def \/ ~PositionsOK(gc.q) \/ ~VelocitiesOK(saved.q, gc.q, dt)
        \* only moving sideways: the wheels in front are slower
        side == QIsZero(u[1]) /\ QIsZero(u[3])
        fast == IF BackWheel(u) > 6400 THEN TRUE ELSE IF BackWheel(u) < 6150 THEN FALSE ELSE side /\ QLt(Limit, AbsQ(QMul(Q(100, 7), u[2])))
        slow == IF side THEN ~fast ELSE AnyWheel(u) < 6150
    IN /\ Rec([op |-> "command", dt |-> dtq,
               exp |-> IF bad THEN [throws |-> TRUE]
                       ELSE IF fast THEN [throws |-> TRUE]
                       ELSE IF ~slow THEN Unknown
                       ELSE [joints |-> JointValues(gc), base |-> <<dp[1], dp[2], w[3]>>, wheels |-> [i \in 1..3 |-> Wheel(u, i)], dt |-> dtq,
                             log |-> [repeated |-> 0, entries |->
                                 ("r.cmd.joint_angles" :> Column(JointValues(gc), 15)) @@ ("r.cmd.wheel_velocities" :> [i \in 1..3 |-> <<Wheel(u, i)>>])
                                 @@ ("r.cmd.base_velocities" :> <<<<dp[1]>>, <<dp[2]>>, <<w[3]>>>>) @@ ("r.cmd.time_interval" :> <<<<dtq>>>>)
                                 @@ ("r.model.state.joint_angles" :> Column(JointValues(gc), 15)) @@ ("r.model.state.root_pose" :> Unknown)
                                 @@ ("r.model.root_motion_to_wheels" :> Unknown)]]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* the command was executed for some time only
Correct ==
    LET own == RandBool(seed, K(1))
        g0 == IF own THEN gc ELSE [def |-> FALSE, p |-> RandPos(3), rpy |-> RandRPY(10), plus |-> QZero, q |-> RandJoints(20)]
        cdt == P(2, <<QOne, Q(1, 2), Q(1, 10)>>)
        dt == P(40, <<Q(1, 2), Q(1, 10), Q(1, 4), QOne, QZero, QI(-1)>>)
        positive == dt.n > 0
        v == <<Q(R(41, -9, 9), 2), Q(R(42, -9, 9), 2), Q(R(43, -9, 9), 4)>>
        \* exact results: differences of joints are multiples of 100
        cq == [j \in 1..15 |-> g0.q[j] + 100 * R(50 + j, -9000, 9000)]
        share == QDiv(dt, cdt)
        g1 == [g0 EXCEPT !.p = <<QAdd(@[1], QMul(dt, v[1])), QAdd(@[2], QMul(dt, v[2])), @[3]>>, !.plus = QAdd(@, QMul(dt, v[3])),
                         !.q = [j \in 1..15 |-> g0.q[j] + (((cq[j] - g0.q[j]) * share.n) \div share.d)]]
        refused == positive /\ ~Planar
        g == IF positive THEN g1 ELSE g0
        moved == ~refused /\ (positive \/ ~own)
    IN /\ gc' = IF refused THEN g0 ELSE g
       /\ pose' = IF moved THEN NewPoses ELSE pose
       /\ axes' = IF moved THEN NewAxes ELSE axes
       /\ Rec([op |-> "correct", own |-> own, g |-> Inp(g0), dt |-> dt, cdt |-> cdt, v |-> v, cq |-> [j \in 1..15 |-> Rad(cq[j])], pose |-> pose', axes |-> axes',
               exp |-> IF refused THEN [throws |-> TRUE] ELSE [updates |-> IF moved THEN 1 ELSE 0, coords |-> IF moved THEN Coords(g) ELSE Unknown]])
       /\ UNCHANGED <<seed, variant, loaded, saved, wbc, tasks, tree>>
CheckState == /\ Rec([op |-> "check", exp |-> IF PositionsOK(gc.q) THEN [ok |-> TRUE] ELSE [throws |-> TRUE]])
              /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* The root must not move.
Transition ==
    LET own == RandBool(seed, K(1))
        dt == P(2, <<10, 100, 1000>>)
        from == [def |-> FALSE, p |-> RandPos(5), rpy |-> RandRPY(10), plus |-> QZero, q |-> IF own THEN Nearby(gc.q, dt, 20) ELSE RandJoints(20)]
        how == R(3, 0, 5)
        nan == R(4, 0, 9) = 0
        to == IF own THEN gc
              ELSE [def |-> FALSE, q |-> Nearby(from.q, dt, 60), plus |-> from.plus,
                    p |-> IF how = 0 THEN <<QAdd(from.p[1], Q(1, 1000)), from.p[2], from.p[3]>> ELSE from.p,
                    rpy |-> IF how = 1 THEN <<from.rpy[1], from.rpy[2], P(90, Angles)>> ELSE from.rpy]
        from1 == IF own /\ how > 1 THEN [from EXCEPT !.p = gc.p, !.rpy = gc.rpy, !.plus = gc.plus] ELSE from
        \* turning by half a turn is not noticed (the sine is zero)
        same == RootMatrix(from1) = RootMatrix(to)
        half == \A i \in 1..3 : QIsZero(RotError(RootMatrix(from1), RootMatrix(to))[i])
    IN /\ Rec([op |-> "transition", own |-> own, from |-> Inp(from1), to |-> Inp(to), dt |-> Q(dt, 1000), nan |-> nan /\ ~own,
               exp |-> IF (nan /\ ~own) \/ ~PositionsOK(to.q) \/ ~VelocitiesOK(from1.q, to.q, dt) \/ from1.p # to.p \/ (from1.plus # to.plus) THEN [throws |-> TRUE]
                       ELSE IF same THEN [ok |-> TRUE] ELSE IF half THEN Unknown ELSE [throws |-> TRUE]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>

(* ------------------------------- controller ------------------------------- *)
RandMP(o) == [base |-> QV(RandV(seed, K(o), 3, 4)), body |-> QV(RandV(seed, K(o + 5), 3, 4)), rpy |-> <<P(o + 10, Angles), Angles[R(o + 11, 1, 4)], Angles[R(o + 12, 1, 4)]>>]
MPMatrix(mp) == RPY(mp.rpy[1], mp.rpy[2], mp.rpy[3])
\* a new controller with an interval of control in ms
NewWBC == LET ms == P(1, <<10, 100, 500, 1000>>) IN
    /\ wbc' = [InitWBC EXCEPT !.int = Q(ms, 1000), !.made = TRUE]
    /\ Rec([op |-> "wbc", ms |-> ms, exp |-> [ok |-> TRUE]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, tasks, tree, pose, axes>>
StartWBC == LET mp == RandMP(1) IN
    /\ wbc' = [wbc EXCEPT !.started = TRUE, !.parsed = FALSE, !.mp = mp]
    /\ Rec([op |-> "start", mp |-> mp, exp |-> [status |-> "ok", n |-> NumRoot + 15, root |-> <<0, NumRoot>>, joints |-> <<NumRoot, 15>>]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, tasks, tree, pose, axes>>
StateError == LET mp == RandMP(1) IN
    /\ Rec([op |-> "staterror", mp |-> mp, exp |-> [base |-> QVSub(mp.base, CoMOf(BaseLinks)), body |-> QVSub(mp.body, CoMOf(BodyLinks)),
                                                    rpy |-> RotError(BasePose.R, MPMatrix(mp))]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* small angles: the desired orientations are found by integration of velocities, which is not necessarily exact
TurnAngles == << Angles[1], [c |-> Q(4095, 4097), s |-> Q(128, 4097)], [c |-> Q(4095, 4097), s |-> Q(-128, 4097)], [c |-> Q(16383, 16385), s |-> Q(256, 16385)] >>
Near(x, tol) == [near |-> x, tol |-> tol]
Tol == Q(1, 1000)
\* velocities of tags in their own frames: v - linear, the angular one is an angle about an axis in one interval of control
SetVel == LET n == R(1, 0, 3)
              names == [i \in 1..n |-> Tags[1 + ((R(2, 0, 5) + i) % 6)]]
              vel == [i \in 1..n |-> [tag |-> names[i], v |-> QV(RandV(seed, K(10 * i), 3, 3)), axis |-> P(10 * i + 5, UnitAxes), a |-> P(10 * i + 6, TurnAngles)]]
          IN /\ wbc' = [wbc EXCEPT !.vel = vel]
             /\ Rec([op |-> "setvel", vel |-> vel, int |-> wbc.int, exp |-> [ok |-> TRUE]])
             /\ UNCHANGED <<seed, variant, gc, loaded, saved, tasks, tree, pose, axes>>
HasVel(tag) == \E i \in 1..Len(wbc.vel) : wbc.vel[i].tag = tag
VelOf(tag) == wbc.vel[CHOOSE i \in 1..Len(wbc.vel) : wbc.vel[i].tag = tag]
QT(q) == Sym(<<T(q, <<>>)>>)
\* angular velocity in the frame given by a matrix, times k
Omega(M, tag, k) == IF ~HasVel(tag) THEN [i \in 1..3 |-> QT(QZero)]
    ELSE LET d == QMV(M, VelOf(tag).axis) IN [i \in 1..3 |-> Sym(<<T(QMul(k, QDiv(d[i], wbc.int)), <<At(VelOf(tag).a)>>)>>)]
Linear(M, tag, k) == IF ~HasVel(tag) THEN [i \in 1..3 |-> QT(QZero)] ELSE [i \in 1..3 |-> QT(QMul(k, QMV(M, VelOf(tag).v)[i]))]
\* velocity of the point of the link which is in the origin of the root frame
AtOrigin(tag) == IF ~HasVel(tag) THEN [i \in 1..3 |-> QT(QZero)]
    ELSE LET b == LinkPose(Link(tag))
             v == QMV(b.R, VelOf(tag).v)
             c == Cross(b.p, QMV(b.R, VelOf(tag).axis))
         IN [i \in 1..3 |-> Sym(<<T(v[i], <<>>), T(QDiv(c[i], wbc.int), <<At(VelOf(tag).a)>>)>>)]
Eye3 == QIdM(3)
GetVel == LET tag == P(1, Tags) type == R(2, 0, 3) b == LinkPose(Link(tag))
              \* 0: unknown type, 1: complete, 2: translation, 3: rotation
              tcam == "CameraTop_optical_frame" cam == LinkPose(Link(tcam)) IN
    /\ Rec([op |-> "getvel", tag |-> tag, type |-> type,
            exp |-> IF type = 0 THEN [localthrows |-> TRUE, globalthrows |-> TRUE]
                    ELSE [local |-> CASE type = 1 -> Linear(Eye3, tag, QOne) \o Omega(Eye3, tag, QOne) [] type = 2 -> Linear(Eye3, tag, QOne) [] OTHER -> Omega(Eye3, tag, QOne),
                          global |-> CASE type = 1 -> Omega(b.R, tag, QOne) \o AtOrigin(tag) [] type = 2 -> AtOrigin(tag) [] OTHER -> Omega(b.R, tag, QOne),
                          base |-> Omega(cam.R, tcam, QOne) \o AtOrigin(tcam)]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* desired poses: where the tags are after one interval of control
Desired ==
    LET new == [i \in 1..Len(wbc.vel) |->
                  LET x == wbc.vel[i] b == LinkPose(Link(x.tag)) IN
                  [tag |-> x.tag, R |-> b.R, turn |-> Rodrigues(x.axis, x.a), p |-> QVAdd(b.p, QVScale(wbc.int, QMV(b.R, x.v)))]]
        old == SelectSeq(wbc.des, LAMBDA d : ~HasVel(d.tag))
    IN /\ wbc' = [wbc EXCEPT !.des = new \o old]
       /\ Rec([op |-> "desired", names |-> [i \in 1..Len(new) |-> new[i].tag],
               exp |-> [des |-> [i \in 1..Len(new) |->
                                    [tag |-> new[i].tag, p |-> new[i].p,
                                     R |-> [k \in 1..3 |-> [l \in 1..3 |-> Near(Sym([m \in 1..3 |-> T(QOne, <<Rat(new[i].R[k][m]), Rat(new[i].turn[m][l])>>)]), Tol)]]]],
                        n |-> Len(new) + Len(old)]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, tasks, tree, pose, axes>>
HasDes(tag) == \E i \in 1..Len(wbc.des) : wbc.des[i].tag = tag
\* the error of the pose, times k: element (i, j) of the product of the desired orientation with the inverse of the current one ...
ErrTerms(d, R0, i, j, k) == [m \in 1..9 |-> LET a == (m - 1) \div 3 + 1 b == ((m - 1) % 3) + 1 IN T(k, <<Rat(d.R[i][a]), Rat(d.turn[a][b]), Rat(R0[j][b])>>)]
PoseError(tag, k) == IF ~HasDes(tag) THEN [i \in 1..6 |-> QT(QZero)]
    ELSE LET d == wbc.des[CHOOSE i \in 1..Len(wbc.des) : wbc.des[i].tag = tag]
             b == LinkPose(Link(tag))
             h == QMul(k, Q(1, 2))
             e(i, j) == Near(Sym(ErrTerms(d, b.R, i, j, h) \o ErrTerms(d, b.R, j, i, QNeg(h))), QAdd(QMul(Tol, IF k.n < 0 THEN QNeg(k) ELSE k), Q(1, 1000000000)))
         IN <<e(3, 2), e(1, 3), e(2, 1)>> \o [i \in 1..3 |-> Sym(<<T(k, <<Rat(d.p[i])>>), T(QNeg(k), <<Rat(b.p[i])>>)>>)]
GetError == LET tag == P(1, Tags) IN
    /\ Rec([op |-> "poseerror", tag |-> tag, exp |-> [e |-> PoseError(tag, QOne)]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>
\* the solution is added to the state; it can be parsed only once
NextCoords ==
    LET x == [i \in 1..(NumRoot + 15) |-> Q(R(10 + i, -9, 9), 8)] IN
    /\ wbc' = [wbc EXCEPT !.parsed = TRUE]
    /\ Rec([op |-> "next", x |-> x,
            exp |-> IF wbc.parsed THEN [throws |-> TRUE]
                    ELSE [root |-> SubSeq(x, 1, NumRoot), joints |-> SubSeq(x, NumRoot + 1, NumRoot + 15)]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, tasks, tree, pose, axes>>
NextParsed == /\ Rec([op |-> "nextparsed", exp |-> IF wbc.parsed THEN Coords(gc) ELSE [throws |-> TRUE]])
              /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>

(* ---------------------------------- tasks ---------------------------------- *)
AddTask == LET kind == P(19, TaskKinds) t == MkTask(1, kind) IN
    /\ tasks' = Append(tasks, t)
    /\ Rec([op |-> "task", task |-> [t EXCEPT !.ref = [j \in 1..Len(t.ref) |-> Rad(t.ref[j])]], exp |-> [ok |-> TRUE]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tree, pose, axes>>
\* a task is configured anew from a file
Configure == LET i == R(60, 1, Len(tasks)) t == MkTask(1, tasks[i].kind) IN
    /\ tasks' = [tasks EXCEPT ![i] = t]
    /\ Rec([op |-> "configure", task |-> i, new |-> [t EXCEPT !.ref = [j \in 1..Len(t.ref) |-> Rad(t.ref[j])]], exp |-> [ok |-> TRUE]])
    /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tree, pose, axes>>
Scaled(M, k) == QMScale(k, M)
Set3(m) == SelectSeq(<<1, 2, 3>>, LAMBDA i : (m \div (CASE i = 1 -> 1 [] i = 2 -> 2 [] OTHER -> 4)) % 2 = 1)
Sel(M, s) == [i \in 1..Len(s) |-> M[s[i]]]
Values(v) == [i \in 1..Len(v) |-> QT(v[i])]
Form ==
    LET i == R(1, 1, Len(tasks))
        t == tasks[i]
        kg == QMul(t.k, t.gain)
        b == LinkPose(Link(t.tag))
        l == Link(t.tag)
        JA == JAll(l, b.p)
        JO == JRot(l, b.p)
        AB(A, rhs) == [A |-> Scaled(A, t.gain), b |-> Values(QVScale(kg, rhs))]
        first(n) == [j \in 1..n |-> NumRoot + j - 1]
        idx(names) == [j \in 1..Len(names) |-> NumRoot + JointNo(names[j]) - 1]
        xy == IF Planar THEN <<1, 2>> ELSE <<1, 2, 3>>
    IN /\ Rec([op |-> "form", task |-> i,
               exp |-> CASE t.kind = "BaseCoM" -> AB(Sel(CoMJac(BaseLinks), xy), Sel(QVSub(wbc.mp.base, CoMOf(BaseLinks)), xy))
                         [] t.kind = "BaseOrient" -> LET s == IF Planar THEN <<3>> ELSE <<1, 2, 3>> IN
                                                     AB(Sel(JRot(BaseLink, BasePose.p), s), Sel(RotError(BasePose.R, MPMatrix(wbc.mp)), s))
                         [] t.kind = "BodyCoM" -> AB(Sel(CoMJac(BodyLinks), Set3(t.mask)), Sel(QVSub(wbc.mp.body, CoMOf(BodyLinks)), Set3(t.mask)))
                         [] t.kind = "FixArms" -> [I |-> idx(Arms)]
                         [] t.kind = "FixHead" -> [I |-> idx(HeadJoints)]
                         [] t.kind = "Bounds" -> [I |-> first(15), lb |-> [j \in 1..15 |-> Rad(Joint(Order[j]).lo - gc.q[j])], ub |-> [j \in 1..15 |-> Rad(Joint(Order[j]).hi - gc.q[j])]]
                         [] t.kind = "Reference" -> [I |-> first(15), gains |-> [j \in 1..15 |-> t.gain],
                                                     b |-> [j \in 1..15 |-> IF t.ref = <<>> THEN Sym(<<T(kg, <<[k |-> "lit", v |-> Joint(Order[j]).default]>>), T(QNeg(kg), <<Rat(Rad(gc.q[j]))>>)>>)
                                                                            ELSE Sym(<<T(kg, <<Rat(Rad(t.ref[j] - gc.q[j]))>>)>>)]]
                         [] t.kind = "TagOrient" -> AB(JO, RotError(b.R, RPY(t.rpy[1], t.rpy[2], t.rpy[3])))
                         [] t.kind = "TagAngular" -> [A |-> Scaled(JO, t.gain), b |-> Omega(b.R, t.tag, kg)]
                         [] t.kind = "TagComplete" -> [A |-> Scaled(JA, t.gain), b |-> Omega(b.R, t.tag, kg) \o Linear(b.R, t.tag, kg)]
                         [] t.kind = "TagPose" -> [A |-> Scaled(JA, t.gain), b |-> PoseError(t.tag, kg)]
                         \* about x, about y, along z; no motion otherwise
                         [] t.kind = "TagPose3" -> LET e == PoseError(t.tag, kg) IN [A |-> Scaled(JA, t.gain), b |-> <<e[1], e[2], QT(QZero), QT(QZero), QT(QZero), e[6]>>]])
       /\ UNCHANGED <<seed, variant, gc, loaded, saved, wbc, tasks, tree, pose, axes>>

Next == /\ Step < MaxOps
        /\ LET o == R(0, 0, 29) IN
           CASE o = 0 -> IF R(698, 0, 1) = 0 THEN CoordsOp ELSE Reorder
             [] o = 1 /\ ~loaded -> GetState
             [] ~loaded -> Load
             [] loaded /\ gc.def -> IF R(699, 0, 4) = 0 THEN GetState ELSE Update
             [] ~wbc.made -> NewWBC
             [] OTHER ->
                CASE o \in 1..3 -> Update [] o = 4 -> GetState [] o \in 5..6 -> Query [] o = 7 -> Save [] o \in 8..9 -> Command
                  [] o = 10 -> Correct [] o = 11 -> CheckState [] o = 12 -> Transition
                  [] o = 13 -> (IF R(699, 0, 3) = 0 THEN NewWBC ELSE StartWBC) [] o = 14 -> StartWBC [] o = 15 -> StateError
                  [] o = 16 -> SetVel [] o = 17 -> GetVel [] o = 18 -> Desired [] o = 19 -> GetError
                  [] o = 20 -> (IF wbc.started THEN (IF R(699, 0, 1) = 0 THEN NextCoords ELSE NextParsed) ELSE StartWBC)
                  [] o \in 21..23 -> AddTask
                  [] o = 24 /\ tasks # <<>> -> Configure
                  [] OTHER -> IF tasks = <<>> THEN AddTask ELSE IF ~wbc.started THEN StartWBC ELSE Form
Spec == Init /\ [][Next]_vars

(* -------------------------------- invariants -------------------------------- *)
\* The parts of the robot: mass, momentum.
PartsOK == Step = 1 => QAdd(MassOf(BaseLinks), MassOf(BodyLinks)) = MassOf(All)
TreeOK == Step = 0 => /\ NumDof = NumRoot + 15
                      /\ {Names[i] : i \in NumRootBodies..tree.n} =
                           {"Head", "Hip", "LBicep", "LElbow", "LForeArm", "LShoulder", "Neck", "Pelvis", "RBicep", "RElbow", "RForeArm", "RShoulder", "l_wrist", "r_wrist", "torso", "Tibia"}
                      /\ \A i \in 1..15 : LinkTable[i][1] = Order[i]
\* what is saved is consistent with the bounds in which it was accepted
LogOK == Len(log) <= MaxOps
Emit == Step = MaxOps => EmitCase([machine |-> "pepperik", seed |-> seed, variant |-> variant, steps |-> log])
=============================================================================
