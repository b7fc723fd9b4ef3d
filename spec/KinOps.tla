------------------------------- MODULE KinOps -------------------------------
(* Kinematics of a tree of bodies with given poses and joint axes.          *)
EXTENDS Rot
VARIABLES tree, pose, axes
\* tree: [n |-> number of movable bodies, parent, dof, custom, mass, com: for each of them, extra |-> unused coordinates,
\*        fixed |-> sequence of [parent, R, p, mass, com]]; body 0 is the base
\* pose: [R, p] of each movable body; axes: [w, v] of each degree of freedom of each body, in its frame

FirstDof(i) == SumSeq(SubSeq(tree.dof, 1, i - 1))
NumDof == SumSeq(tree.dof) + tree.extra
MkPose(s, o) == [R |-> CASE RandInt(s, o + 1, 0, 2) = 0 -> RPY(RandOf(Angles, s, o + 2), Angles[RandInt(s, o + 3, 1, 4)], Angles[RandInt(s, o + 4, 1, 4)])
                         [] RandInt(s, o + 1, 0, 2) = 1 -> RPY(Angles[RandInt(s, o + 3, 1, 4)], RandOf(Angles, s, o + 2), Angles[RandInt(s, o + 4, 1, 4)])
                         [] OTHER -> RPY(Angles[RandInt(s, o + 4, 1, 4)], Angles[RandInt(s, o + 3, 1, 4)], RandOf(Angles, s, o + 2)),
                 p |-> QV(RandV(s, o + 5, 3, 3))]
\* axis of a degree of freedom in the frame of the body: angular and linear part
MkAxis(s, o) == [w |-> QV(IF RandInt(s, o + 1, 0, 3) = 0 THEN ZeroV(3) ELSE RandV(s, o + 2, 3, 2)),
                 v |-> QV(IF RandInt(s, o + 6, 0, 2) = 0 THEN ZeroV(3) ELSE RandV(s, o + 7, 3, 2))]
Base == [R |-> QIdM(3), p |-> QZeroV(3)]

(* --------------------------- kinematics of links --------------------------- *)
\* a link: [fixed |-> FALSE, i |-> 0..n] or [fixed |-> TRUE, i |-> 1..number of fixed bodies]
Movable(l) == IF l.fixed THEN tree.fixed[l.i].parent ELSE l.i
BodyPose(i) == IF i = 0 THEN Base ELSE pose[i]
LinkPose(l) ==
    LET b == BodyPose(Movable(l)) IN
    IF l.fixed THEN [R |-> QMM(b.R, tree.fixed[l.i].R), p |-> QVAdd(b.p, QMV(b.R, tree.fixed[l.i].p))] ELSE b
PointOf(l, x) == LET b == LinkPose(l) IN QVAdd(b.p, QMV(b.R, x))
RECURSIVE Path(_)
Path(i) == IF i = 0 THEN {} ELSE {i} \cup Path(tree.parent[i])
\* the joint and the number of the degree of freedom in it
Dofs == [k \in 1..SumSeq(tree.dof) |-> LET j == CHOOSE j \in 1..tree.n : FirstDof(j) < k /\ k <= FirstDof(j) + tree.dof[j] IN [j |-> j, k |-> k - FirstDof(j)]]
\* Angular and linear velocity of the point x of link l for each of the degrees of freedom:
\* a rigid motion of all that follows the joint.
JAll(l, x) ==
    LET path == Path(Movable(l)) dofs == Dofs IN
    TrN([k \in 1..NumDof |->
        IF k > Len(dofs) THEN QZeroV(6)
        ELSE IF dofs[k].j \notin path THEN QZeroV(6)
        ELSE LET j == dofs[k].j
                 a == axes[j][dofs[k].k]
                 b == BodyPose(j)
                 w == QMV(b.R, a.w)
             IN w \o QVAdd(QMV(b.R, a.v), Cross(w, QVSub(x, b.p)))], 6)
JRot(l, x) == SubSeq(JAll(l, x), 1, 3)
JLin(l, x) == SubSeq(JAll(l, x), 4, 6)
Mv(i) == [fixed |-> FALSE, i |-> i]
RECURSIVE QVSum(_, _)
QVSum(F, n) == IF n = 0 THEN QZeroV(3) ELSE QVAdd(F[n], QVSum(F, n - 1))
RECURSIVE QMSum(_, _, _)
QMSum(F, n, z) == IF n = 0 THEN z ELSE QMAdd(F[n], QMSum(F, n - 1, z))
\* numbers of links: movable ones, then fixed ones, which have masses of their own
Lk(i) == IF i > tree.n THEN [fixed |-> TRUE, i |-> i - tree.n] ELSE Mv(i)
LinkMass(i) == IF i > tree.n THEN tree.fixed[i - tree.n].mass ELSE IF i = 0 THEN QZero ELSE tree.mass[i]
LinkCoM(i) == IF i > tree.n THEN tree.fixed[i - tree.n].com ELSE tree.com[i]
MassOf(ls) == QSumSeq([i \in 1..Len(ls) |-> LinkMass(ls[i])])
CoMPoint(i) == PointOf(Lk(i), LinkCoM(i))
CoMOf(ls) == QVScale(QInv(MassOf(ls)), QVSum([i \in 1..Len(ls) |-> QVScale(LinkMass(ls[i]), CoMPoint(ls[i]))], Len(ls)))
CoMJac(ls) == QMScale(QInv(MassOf(ls)), QMSum([i \in 1..Len(ls) |-> QMScale(LinkMass(ls[i]), JLin(Lk(ls[i]), CoMPoint(ls[i])))], Len(ls), QZeroM(3, NumDof)))
AllLinks == [i \in 1..tree.n |-> i]
=============================================================================
