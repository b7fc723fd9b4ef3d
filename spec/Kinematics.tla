----------------------------- MODULE Kinematics -----------------------------
(* Kinematics of an articulated body: poses, masses and Jacobians of tags.  *)
(* A tree of movable bodies (number 0 is the base), each attached by a      *)
(* joint with some degrees of freedom, and bodies fixed to the movable ones.*)
(* The poses of the bodies and the axes of the joints are arbitrary and     *)
(* change at every update.                                                  *)
EXTENDS KinOps
CONSTANTS SeedLo, SeedHi, MaxOps, MaxBodies, MaxFixed
VARIABLES seed, loaded, par, tags, log
vars == <<seed, tree, loaded, par, pose, axes, tags, log>>
Step == Len(log)
K(i) == 150 * Step + i
R(i, lo, hi) == RandInt(seed, K(i), lo, hi)
Rec(e) == log' = Append(log, e)
Unknown == 77777777

(* -------------------------------- tree -------------------------------- *)
\* joints: one or three degrees of freedom, or a custom joint
MkTree(s, o) ==
    LET nb == RandInt(s, o + 1, 1, MaxBodies)
        nf == RandInt(s, o + 2, 0, MaxFixed)
        custom(i) == RandInt(s, o + 20 + i, 0, 3) = 0
        dof(i) == IF custom(i) THEN RandInt(s, o + 30 + i, 1, 4) ELSE RandOf(<<1, 1, 3>>, s, o + 30 + i)
    IN [n |-> nb,
        parent |-> [i \in 1..nb |-> IF RandBool(s, o + 10 + i) THEN i - 1 ELSE RandInt(s, o + 40 + i, 0, i - 1)],
        custom |-> [i \in 1..nb |-> custom(i)],
        dof |-> [i \in 1..nb |-> dof(i)],
        \* some coordinates need not belong to any degree of freedom
        extra |-> RandOf(<<0, 0, 1>>, s, o + 3),
        mass |-> [i \in 1..nb |-> IF i > 1 /\ RandInt(s, o + 50 + i, 0, 3) = 0 THEN QZero ELSE RandOf(<<QOne, QI(2), QI(3), Q(1, 2), QI(5)>>, s, o + 60 + i)],
        com |-> [i \in 1..nb |-> QV(RandV(s, o + 70 + 4 * i, 3, 2))],
        fixed |-> [i \in 1..nf |-> [parent |-> RandInt(s, o + 100 + i, 0, nb),
                                    R |-> RPY(RandOf(Angles, s, o + 110 + i), Angles[RandInt(s, o + 120 + i, 1, 4)], Angles[RandInt(s, o + 130 + i, 1, 4)]),
                                    p |-> QV(RandV(s, o + 140 + 4 * i, 3, 2)),
                                    mass |-> RandOf(<<QOne, QI(4), Q(3, 2)>>, s, o + 180 + i), com |-> QV(RandV(s, o + 190 + 4 * i, 3, 2))]]]

(* ---------------------------------- tags ---------------------------------- *)
Links == [k \in 1..(tree.n + 1 + Len(tree.fixed)) |-> IF k <= tree.n + 1 THEN Mv(k - 1) ELSE [fixed |-> TRUE, i |-> k - tree.n - 1]]
MkTag ==
    LET kind == RandOf(<<"link", "point", "point", "linkcom", "partial", "com">>, seed, K(1))
        l == RandOf(Links, seed, K(2))
        m == R(3, 1, tree.n)
        first == IF QIsZero(tree.mass[m]) THEN 1 ELSE m
        others == [i \in 1..R(4, 0, 3) |-> IF R(20, 0, 2) = 0 THEN R(5 + i, 1, tree.n + Len(tree.fixed)) ELSE R(5 + i, 1, tree.n)]
        c == IF R(21, 0, 2) = 0 THEN R(22, 1, tree.n + Len(tree.fixed)) ELSE m
    IN CASE kind = "link" -> [kind |-> kind, l |-> l, x |-> QZeroV(3), ls |-> <<>>]
         [] kind = "point" -> [kind |-> kind, l |-> l, x |-> QV(RandV(seed, K(10), 3, 3)), ls |-> <<>>]
         [] kind = "linkcom" -> [kind |-> kind, l |-> Lk(c), x |-> LinkCoM(c), ls |-> <<>>]
         [] kind = "partial" -> [kind |-> kind, l |-> Mv(0), x |-> QZeroV(3), ls |-> IF RandBool(seed, K(9)) THEN <<first>> \o others ELSE others \o <<first>>]
         [] kind = "com" -> [kind |-> kind, l |-> Mv(0), x |-> QZeroV(3), ls |-> AllLinks]
IsCoM(t) == t.kind \in {"partial", "com"}

Init == /\ seed \in SeedLo..SeedHi
        /\ tree = MkTree(seed, 5)
        /\ loaded = FALSE
        /\ par = TRUE
        /\ pose = <<>>
        /\ axes = <<>>
        /\ tags = <<>>
        /\ log = <<>>
Load ==
    LET ok == R(1, 0, 3) # 0
        floating == RandBool(seed, K(2))
        \* how: constructor or function, with or without parameters, of a new object or of one which may have been loaded before
        how == IF ~ok \/ loaded THEN RandOf(<<0, 1, 2, 3, 4, 5, 4, 5>>, seed, K(3)) ELSE R(3, 0, 5)
        f == CASE how \in {0, 2} -> TRUE [] how \in {1, 3, 5} -> floating [] how = 4 -> par
    IN /\ loaded' = ok
       \* what another file contains
       /\ tree' = IF loaded THEN MkTree(seed, K(10)) ELSE tree
       /\ pose' = <<>>
       /\ axes' = <<>>
       /\ tags' = <<>>
       \* parameters belong to the object
       /\ par' = IF ~ok /\ how \in {0, 1} THEN par ELSE f
       /\ Rec([op |-> "load", ok |-> ok, floating |-> floating, how |-> how, tree |-> tree', ndof |-> NumDof', first |-> [i \in 1..(tree'.n) |-> FirstDof(i)'],
               file |-> "file" \o ToString(R(4, 0, 9)),
               exp |-> [reads |-> 1, file |-> "file" \o ToString(R(4, 0, 9)), floating |-> f, fresh |-> TRUE,
                        failed |-> ~ok, ndof |-> IF ok THEN NumDof' ELSE Unknown, mass |-> IF ok THEN MassOf(AllLinks)' ELSE Unknown]])
       /\ UNCHANGED seed
Update ==
    LET q == [k \in 1..NumDof |-> RandInt(seed, K(100) + k, -9, 9)] IN
    /\ pose' = [i \in 1..tree.n |-> MkPose(seed, K(10 * i))]
    /\ axes' = [i \in 1..tree.n |-> [k \in 1..tree.dof[i] |-> MkAxis(seed, K(5000 + 60 * i + 12 * k))]]
    /\ Rec([op |-> "update", q |-> q, pose |-> pose', axes |-> axes', exp |-> [updates |-> 1, q |-> q, others |-> FALSE]])
    /\ UNCHANGED <<seed, tree, loaded, par, tags>>
AddTag == LET t == MkTag IN
    /\ tags' = Append(tags, t)
    /\ Rec([op |-> "tag", tag |-> t, exp |-> [ok |-> TRUE]])
    /\ UNCHANGED <<seed, tree, loaded, par, pose, axes>>
\* jtype: 1 complete, 2 translation, 3 rotation
Jac(t, jtype) == IF IsCoM(t) THEN CoMJac(t.ls)
                 ELSE LET x == PointOf(t.l, t.x) IN CASE jtype = 1 -> JAll(t.l, x) [] jtype = 2 -> JLin(t.l, x) [] OTHER -> JRot(t.l, x)
Query ==
    LET i == R(1, 1, Len(tags))
        t == tags[i]
        what == RandOf(IF IsCoM(t) THEN <<"position", "mass", "jacobian", "jacobian">>
                       ELSE IF t.kind = "link" THEN <<"position", "orientation", "pose", "mass", "jacobian", "jacobian", "jacobian">>
                       ELSE <<"position", "orientation", "pose", "jacobian", "jacobian", "jacobian">>, seed, K(2))
        jtype == R(3, 1, 3)
        p == PointOf(t.l, t.x)
    IN /\ Rec([op |-> "query", tag |-> i, what |-> what, jtype |-> jtype,
               \* size and contents of the output before the call
               old |-> <<R(4, 0, 7), R(5, 0, 7)>>,
               exp |-> CASE what = "position" -> [p |-> IF IsCoM(t) THEN CoMOf(t.ls) ELSE p]
                         [] what = "orientation" -> [R |-> LinkPose(t.l).R]
                         [] what = "pose" -> [p |-> p, R |-> LinkPose(t.l).R]
                         [] what = "mass" -> [m |-> IF IsCoM(t) THEN MassOf(t.ls) ELSE LinkMass(IF t.l.fixed THEN tree.n + t.l.i ELSE t.l.i)]
                         [] what = "jacobian" -> [J |-> Jac(t, jtype)]])
       /\ UNCHANGED <<seed, tree, loaded, par, pose, axes, tags>>
BadType == /\ Rec([op |-> "badtype", which |-> R(1, 0, 1), exp |-> [throws |-> TRUE]])
           /\ UNCHANGED <<seed, tree, loaded, par, pose, axes, tags>>
\* there is no such link
BadLink == /\ Rec([op |-> "badlink", which |-> R(1, 0, 3), exp |-> [throws |-> TRUE]])
           /\ UNCHANGED <<seed, tree, loaded, par, pose, axes, tags>>
Next == /\ Step < MaxOps
        /\ LET o == R(0, 0, 9) IN
           CASE ~loaded -> Load
             [] loaded /\ pose = <<>> -> IF tags = <<>> /\ RandBool(seed, K(149)) THEN AddTag ELSE Update
             [] loaded /\ pose # <<>> /\ tags = <<>> -> AddTag
             [] OTHER -> CASE o = 0 -> Update [] o \in 1..2 -> AddTag [] o = 3 /\ R(148, 0, 5) = 0 -> BadType [] o = 3 /\ R(148, 0, 5) = 1 -> BadLink [] o = 3 /\ R(148, 0, 5) = 2 -> Load [] OTHER -> Query
Spec == Init /\ [][Next]_vars

(* ------------------------------- invariants ------------------------------- *)
\* Points of one link do not move along the line which connects them.
Updated == Len(log) > 0 /\ log[Len(log)].op = "update"
RigidOK == Updated => \A l \in {Links[k] : k \in 1..Len(Links)} :
    LET x == PointOf(l, QZeroV(3))
        y == PointOf(l, <<QOne, QI(-2), QI(3)>>)
        d == QMSub(JLin(l, x), JLin(l, y))
    IN JRot(l, x) = JRot(l, y) /\ \A k \in 1..NumDof : QIsZero(QDot(QVSub(x, y), <<d[1][k], d[2][k], d[3][k]>>))
\* The momentum of the whole is the sum of the momenta of its parts.
SplitOK == Updated /\ tree.n > 1 /\ (\A i \in 2..tree.n : ~QIsZero(tree.mass[i])) =>
    LET a == <<1>> b == Tail(AllLinks) IN
    QMScale(MassOf(AllLinks), CoMJac(AllLinks)) = QMAdd(QMScale(MassOf(a), CoMJac(a)), QMScale(MassOf(b), CoMJac(b)))
PosesOK == \A i \in 1..Len(pose) : QMM(pose[i].R, TrN(pose[i].R, 3)) = QIdM(3)
Emit == Step = MaxOps => EmitCase([machine |-> "kinematics", seed |-> seed, steps |-> log])
=============================================================================
