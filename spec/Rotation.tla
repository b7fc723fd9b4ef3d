------------------------------ MODULE Rotation ------------------------------
(* Rotations with exact rational matrices: angles whose sine and cosine are *)
(* rational (Pythagorean triples).                                          *)
EXTENDS Rot
CONSTANTS SeedLo, SeedHi, MaxOps
VARIABLES seed, cur, log
vars == <<seed, cur, log>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 80 * Step + i, lo, hi)
Rec(e) == log' = Append(log, e)

A(i) == RandOf(Angles, seed, 80 * Step + i)

Init == seed \in SeedLo..SeedHi /\ cur = QIdM(3) /\ log = <<>>
ToMatrix == LET t == R(1, 1, 2) r == A(2) p == A(3) y == A(4) M == Euler(t, r, p, y) IN
    /\ cur' = M
    \* the angles of the matrix need not be the same, but must describe the same rotation; also when converted to the other convention
    /\ Rec([op |-> "euler", type |-> t, to |-> R(5, 1, 2), rpy |-> <<r, p, y>>, exp |-> [M |-> M, back |-> M, conv |-> M]])
    /\ UNCHANGED seed
BadType == /\ Rec([op |-> "badtype", which |-> R(1, 0, 3), exp |-> [throws |-> TRUE]]) /\ UNCHANGED <<seed, cur>>
\* a rotation of moderate size of the numbers
M1 == RPY(RandOf(Angles, seed, 80 * Step + 11), Angles[1 + R(12, 0, 3)], RandOf(Angles, seed, 80 * Step + 13))
M2 == RPY(Angles[1 + R(14, 0, 3)], RandOf(Angles, seed, 80 * Step + 15), Angles[1 + R(16, 0, 3)])
ErrorM == LET c == M1 r == M2 E == QMM(r, TrN(c, 3)) IN
    \* reference = error * current; the axis is the antisymmetric part of the error
    /\ Rec([op |-> "error", cur |-> c, ref |-> r,
            exp |-> [E |-> E,
                     aa |-> << QDiv(QSub(E[3][2], E[2][3]), QI(2)), QDiv(QSub(E[1][3], E[3][1]), QI(2)), QDiv(QSub(E[2][1], E[1][2]), QI(2)) >>]])
    /\ cur' = E /\ UNCHANGED seed
\* angular velocity = sum of rates about the axes of the successive rotations
Rates == LET p == RandOf(Angles2, seed, 80 * Step + 2) y == RandOf(Angles2, seed, 80 * Step + 3) r == A(4)
             ex == <<QOne, QZero, QZero>> ey == <<QZero, QOne, QZero>> ez == <<QZero, QZero, QOne>>
             c1 == QMV(QMM(RzM(y), RyM(p)), ex) c2 == QMV(RzM(y), ey) c3 == ez
         IN /\ Rec([op |-> "rates", rpy |-> <<r, p, y>>, exp |-> [M |-> [i \in 1..3 |-> <<c1[i], c2[i], c3[i]>>]]])
            /\ UNCHANGED <<seed, cur>>
Integrate1 == LET w == [k \in 1..3 |-> QI(R(k, -3, 3))] dt == RandOf(<<QOne, Q(1, 2), Q(1, 10), QZero>>, seed, 80 * Step + 5) IN
    /\ Rec([op |-> "integrate1", M |-> M1, w |-> w, dt |-> dt, exp |-> [M |-> QMAdd(M1, QMScale(dt, QMM(M1, Hat(w))))]])
    /\ UNCHANGED <<seed, cur>>
Integrate == LET ax == RandOf(UnitAxes, seed, 80 * Step + 1) a == RandOf(Angles, seed, 80 * Step + 2)
                 dt == RandOf(<<QOne, Q(1, 2), QI(2)>>, seed, 80 * Step + 3) M == QMM(M1, Rodrigues(ax, a)) IN
    /\ Rec([op |-> "rodrigues", M |-> M1, axis |-> ax, a |-> a, dt |-> dt, exp |-> [M |-> M]])
    /\ cur' = M /\ UNCHANGED seed
\* Small rotations, to the first order: M (I + e Hat(axis)), e = 2^-K, the rest is of the order of e^2.
Small(M, D, K) == [i \in 1..3 |-> [j \in 1..3 |-> [v |-> M[i][j], eps |-> D[i][j], k |-> K]]]
SmallStep == LET ax == RandOf(UnitAxes, seed, 80 * Step + 1) K == RandOf(<<20, 24, 28>>, seed, 80 * Step + 2)
                 dt == RandOf(<<QOne, Q(1, 2), QI(2), Q(1, 1024), QI(64)>>, seed, 80 * Step + 3) IN
    /\ Rec([op |-> "smallstep", M |-> M1, axis |-> ax, k |-> K, dt |-> dt, exp |-> [M |-> Small(M1, QMM(M1, Hat(ax)), K)]])
    /\ UNCHANGED <<seed, cur>>
SmallError == LET ax == RandOf(UnitAxes, seed, 80 * Step + 1) K == RandOf(<<20, 24, 28>>, seed, 80 * Step + 2) IN
    /\ Rec([op |-> "smallerror", M |-> M1, axis |-> ax, k |-> K,
            exp |-> [E |-> Small(QIdM(3), Hat(ax), K), aa |-> [i \in 1..3 |-> [v |-> QZero, eps |-> ax[i], k |-> K]]]])
    /\ UNCHANGED <<seed, cur>>
\* derivatives with respect to the angle
DxM(a) == << <<QZero, QZero, QZero>>, <<QZero, QNeg(a.s), QNeg(a.c)>>, <<QZero, a.c, QNeg(a.s)>> >>
DyM(a) == << <<QNeg(a.s), QZero, a.c>>, <<QZero, QZero, QZero>>, <<QNeg(a.c), QZero, QNeg(a.s)>> >>
DzM(a) == << <<QNeg(a.s), QNeg(a.c), QZero>>, <<a.c, QNeg(a.s), QZero>>, <<QZero, QZero, QZero>> >>
\* angles next to the exact ones
SmallEuler == LET t == R(1, 1, 2) r == A(2) p == A(3) y == A(4) K == RandOf(<<20, 24, 28>>, seed, 80 * Step + 5)
                  d == [k \in 1..3 |-> QI(R(5 + k, -1, 1))]
                  x == RxM(r) dx == QMScale(d[1], DxM(r)) yy == RyM(p) dy == QMScale(d[2], DyM(p)) z == RzM(y) dz == QMScale(d[3], DzM(y))
                  m3(a, b, c) == IF t = 2 THEN QMM(c, QMM(b, a)) ELSE QMM(a, QMM(b, c))
                  D == QMAdd(m3(dx, yy, z), QMAdd(m3(x, dy, z), m3(x, yy, dz)))
                  M == Small(Euler(t, r, p, y), D, K) IN
    /\ Rec([op |-> "euler", type |-> t, to |-> R(9, 1, 2), rpy |-> <<r, p, y>>, add |-> [k \in 1..3 |-> [v |-> 0, eps |-> d[k], k |-> K]],
            exp |-> [M |-> M, back |-> M, conv |-> M]])
    /\ UNCHANGED <<seed, cur>>
CrossM == LET v == [k \in 1..3 |-> QI(R(k, -4, 4))] u == [k \in 1..3 |-> QI(R(3 + k, -4, 4))] W == QM(RandM(seed, 80 * Step + 20, R(7, 1, 3), 3, 4)) IN
    /\ Rec([op |-> "cross", v |-> v, u |-> u, W |-> W,
            exp |-> [hat |-> Hat(v), vu |-> Cross(v, u), Wv |-> QMM(W, Hat(v))]])
    /\ UNCHANGED <<seed, cur>>
\* orientation of a rigid body
Body == LET r == A(2) p == A(3) y == A(4) IN
    /\ Rec([op |-> "body", rpy |-> <<r, p, y>>, exp |-> [M |-> RPY(r, p, y)]]) /\ cur' = RPY(r, p, y) /\ UNCHANGED seed
Next == /\ Step < MaxOps
        /\ LET o == R(0, 0, 15) IN
           CASE o \in 0..3 -> ToMatrix [] o = 4 -> BadType [] o \in 5..6 -> ErrorM [] o = 7 -> Rates [] o = 8 -> Integrate1
             [] o \in 9..10 -> Integrate [] o = 11 -> CrossM [] o = 13 -> SmallStep [] o = 14 -> SmallError [] o = 15 -> SmallEuler [] OTHER -> Body
Spec == Init /\ [][Next]_vars
\* everything stays a rotation
RotationOK == QMM(cur, TrN(cur, 3)) = QIdM(3) /\ Det(cur) = QOne
Emit == Step = MaxOps => EmitCase([machine |-> "rotation", seed |-> seed, steps |-> log])
=============================================================================
