-------------------------------- MODULE Rot --------------------------------
(* Rotation matrices with rational entries.                                 *)
EXTENDS Mat

Ang(c, s, d) == [c |-> Q(c, d), s |-> Q(s, d)]
\* small denominators: exact products stay within 32 bits
Angles == << Ang(1, 0, 1), Ang(0, 1, 1), Ang(0, -1, 1), Ang(-1, 0, 1), Ang(3, 4, 5), Ang(4, -3, 5), Ang(-3, 4, 5), Ang(-4, -3, 5),
             Ang(4, 3, 5), Ang(3, -4, 5) >>
Angles2 == Angles \o << Ang(5, 12, 13), Ang(12, -5, 13), Ang(-5, 12, 13) >>
RxM(a) == << <<QOne, QZero, QZero>>, <<QZero, a.c, QNeg(a.s)>>, <<QZero, a.s, a.c>> >>
RyM(a) == << <<a.c, QZero, a.s>>, <<QZero, QOne, QZero>>, <<QNeg(a.s), QZero, a.c>> >>
RzM(a) == << <<a.c, QNeg(a.s), QZero>>, <<a.s, a.c, QZero>>, <<QZero, QZero, QOne>> >>
RPY(r, p, y) == QMM(RzM(y), QMM(RyM(p), RxM(r)))
YPR(r, p, y) == QMM(RxM(r), QMM(RyM(p), RzM(y)))
Euler(t, r, p, y) == IF t = 2 THEN RPY(r, p, y) ELSE YPR(r, p, y)
\* cross product matrix
Hat(v) == << <<QZero, QNeg(v[3]), v[2]>>, <<v[3], QZero, QNeg(v[1])>>, <<QNeg(v[2]), v[1], QZero>> >>
Cross(a, b) == << QSub(QMul(a[2], b[3]), QMul(a[3], b[2])), QSub(QMul(a[3], b[1]), QMul(a[1], b[3])), QSub(QMul(a[1], b[2]), QMul(a[2], b[1])) >>
Col(M, j) == [i \in 1..3 |-> M[i][j]]
Det(M) == QDot(Col(M, 1), Cross(Col(M, 2), Col(M, 3)))
UnitAxes == << <<QOne, QZero, QZero>>, <<QZero, QOne, QZero>>, <<QZero, QZero, QI(-1)>>, <<Q(1, 3), Q(2, 3), Q(2, 3)>>,
               <<Q(-2, 3), Q(1, 3), Q(2, 3)>>, <<Q(3, 5), QZero, Q(4, 5)>>, <<QZero, Q(-4, 5), Q(3, 5)>> >>
Rodrigues(ax, a) == QMAdd(QMAdd(QIdM(3), QMScale(a.s, Hat(ax))), QMScale(QSub(QOne, a.c), QMM(Hat(ax), Hat(ax))))
=============================================================================
