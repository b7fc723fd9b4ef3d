-------------------------------- MODULE Cubic --------------------------------
(* Cubic polynomials on [0,1] with given end positions and velocities, and  *)
(* foot trajectories made of them (the vertical motion goes through the     *)
(* step height in the middle).  Velocities and accelerations are the        *)
(* derivatives of the position with respect to the same time variable.      *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps
VARIABLES seed, poly, foot, log
vars == <<seed, poly, foot, log>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 80 * Step + i, lo, hi)
Rec(e) == log' = Append(log, e)

\* coefficients c0..c3 of the cubic p on [0, h] with p(0)=a, p'(0)=ad, p(h)=b, p'(h)=bd  (unique)
Coef(a, ad, b, bd, h) ==
    LET d == QDiv(QSub(b, a), h)
    IN << a, ad,
          QDiv(QSub(QSub(QMul(QI(3), d), QMul(QI(2), ad)), bd), h),
          QDiv(QSub(QAdd(ad, bd), QMul(QI(2), d)), QMul(h, h)) >>
PosAt(c, t) == QAdd(c[1], QMul(t, QAdd(c[2], QMul(t, QAdd(c[3], QMul(t, c[4]))))))
VelAt(c, t) == QAdd(c[2], QMul(t, QAdd(QMul(QI(2), c[3]), QMul(t, QMul(QI(3), c[4])))))
AccAt(c, t) == QAdd(QMul(QI(2), c[3]), QMul(t, QMul(QI(6), c[4])))
JerkOf(c) == QMul(QI(6), c[4])
Ev(c, t, d) == CASE d = 1 -> PosAt(c, t) [] d = 2 -> VelAt(c, t) [] d = 3 -> AccAt(c, t)

Half == Q(1, 2)
ZeroPoly == <<QZero, QZero, QZero, QZero>>
Init == /\ seed \in SeedLo..SeedHi
        /\ poly = ZeroPoly
        /\ foot = [set |-> FALSE]
        /\ log = <<>>

InitPoly2 == LET a == QI(R(1, -40, 40)) b == QI(R(2, -40, 40)) IN
    /\ poly' = Coef(a, QZero, b, QZero, QOne)
    /\ Rec([op |-> "init2", a |-> a, b |-> b, exp |-> [jerk |-> JerkOf(Coef(a, QZero, b, QZero, QOne))]])
    /\ UNCHANGED <<seed, foot>>
InitPoly4 == LET a == QI(R(1, -40, 40)) b == QI(R(2, -40, 40)) ad == QI(R(3, -25, 25)) bd == QI(R(4, -25, 25)) IN
    /\ poly' = Coef(a, ad, b, bd, QOne)
    /\ Rec([op |-> "init4", a |-> a, ad |-> ad, b |-> b, bd |-> bd, exp |-> [jerk |-> JerkOf(Coef(a, ad, b, bd, QOne))]])
    /\ UNCHANGED <<seed, foot>>
TimeQ(i) == CASE R(70 + i, 0, 2) = 0 -> Q(R(i, 0, 50), 50)
              [] R(70 + i, 0, 2) = 1 -> Q(R(i, 0, 20), 20)
              [] OTHER -> Q(R(i, 0, 8), 8)
EvalPoly == LET t == TimeQ(1) d == R(2, 1, 3) IN
    /\ Rec([op |-> "eval", t |-> t, d |-> d, exp |-> [v |-> Ev(poly, t, d)]])
    /\ UNCHANGED <<seed, poly, foot>>
EvalPolyVec == LET ts == [i \in 1..3 |-> TimeQ(i)] d == R(5, 1, 3) IN
    /\ Rec([op |-> "evalvec", t |-> ts, d |-> d, exp |-> [v |-> [i \in 1..3 |-> Ev(poly, ts[i], d)]]])
    /\ UNCHANGED <<seed, poly, foot>>
EvalOutside == LET t == RandOf(<<Q(-1, 8), Q(9, 8), QI(2), QI(-1), Q(-1, 1000), Q(1001, 1000), QI(1000)>>, seed, 80 * Step + 1) IN
    /\ Rec([op |-> "eval", t |-> t, d |-> R(2, 1, 3), exp |-> [throws |-> TRUE]])
    /\ UNCHANGED <<seed, poly, foot>>
EvalBadType ==
    /\ Rec([op |-> "eval", t |-> TimeQ(1), d |-> 0, exp |-> [throws |-> TRUE]])
    /\ UNCHANGED <<seed, poly, foot>>
\* scaling of an increasing sequence of times to [0,1]
ScaleTimes ==
    LET m == R(6, 2, 7) ts == [i \in 1..m |-> QI(R(7, -30, 30) + 3 * i + R(10 + i, 0, 2))] IN
    /\ Rec([op |-> "scale", t |-> ts, exp |-> [v |-> [i \in 1..m |-> QDiv(QSub(ts[i], ts[1]), QSub(ts[m], ts[1]))]]])
    /\ UNCHANGED <<seed, poly, foot>>

V3(i) == LET m == RandOf(<<4, 4, 20>>, seed, 80 * Step + 75) IN [k \in 1..3 |-> QI(R(i + k, -m, m))]
InitFoot ==
    LET form == R(1, 0, 2)
        a == V3(10) b == V3(15) h == QI(R(2, -3, 6))
        zero == <<QZero, QZero, QZero>>
        ad == IF form = 0 THEN zero ELSE V3(20)
        bd == IF form = 0 THEN zero ELSE V3(25)
        th == [a |-> QI(R(30, -3, 3)), ad |-> QI(R(31, -3, 3)), b |-> QI(R(32, -3, 3)), bd |-> QI(R(33, -3, 3))]
        top == QAdd(a[3], h)
        ok == QLe(b[3], top)
        e == [op |-> "initfoot", form |-> form, a |-> a, b |-> b, ad |-> ad, bd |-> bd, h |-> h, th |-> th]
    IN
    /\ IF ok THEN /\ foot' = [set |-> TRUE,
                              x |-> Coef(a[1], ad[1], b[1], bd[1], QOne), y |-> Coef(a[2], ad[2], b[2], bd[2], QOne),
                              z1 |-> Coef(a[3], ad[3], top, QZero, Half), z2 |-> Coef(top, QZero, b[3], bd[3], Half),
                              th |-> IF form = 2 THEN Coef(th.a, th.ad, th.b, th.bd, QOne)
                                     ELSE IF foot.set THEN foot.th ELSE ZeroPoly,
                              a |-> a, b |-> b, ad |-> ad, bd |-> bd, top |-> top]
                  /\ Rec([e EXCEPT !.op = "initfoot"] @@ [exp |-> [ok |-> TRUE]])
       \* a final position above the top of the step is refused and changes nothing
       ELSE foot' = foot /\ Rec(e @@ [exp |-> [throws |-> TRUE]])
    /\ UNCHANGED <<seed, poly>>
ZAt(t, d) == IF QLe(t, Half) THEN Ev(foot.z1, t, d) ELSE Ev(foot.z2, QSub(t, Half), d)
EvalFoot ==
    LET t == TimeQ(1) p3(d) == <<Ev(foot.x, t, d), Ev(foot.y, t, d), ZAt(t, d)>> IN
    /\ foot.set
    /\ Rec([op |-> "evalfoot", t |-> t,
            exp |-> [pos |-> p3(1), vel |-> p3(2),
                     acc |-> IF t = Half THEN <<Ev(foot.x, t, 3), Ev(foot.y, t, 3), 77777777>> ELSE p3(3),   \* two-valued in the middle
                     th |-> <<Ev(foot.th, t, 1), Ev(foot.th, t, 2), Ev(foot.th, t, 3)>>]])
    /\ UNCHANGED <<seed, poly, foot>>
Next == /\ Step < MaxOps
        /\ LET o == R(0, 0, 15) IN
           CASE o = 0 -> InitPoly2 [] o \in 1..2 -> InitPoly4 [] o \in 3..5 -> EvalPoly [] o = 6 -> EvalPolyVec
             [] o = 7 -> EvalOutside [] o = 8 -> EvalBadType [] o = 9 -> ScaleTimes [] o \in 10..11 -> InitFoot
             [] OTHER -> IF foot.set THEN EvalFoot ELSE InitFoot
Spec == Init /\ [][Next]_vars

\* boundary conditions, top of the step in the middle
FootOK == foot.set =>
    /\ <<Ev(foot.x, QZero, 1), Ev(foot.y, QZero, 1), ZAt(QZero, 1)>> = foot.a
    /\ <<Ev(foot.x, QOne, 1), Ev(foot.y, QOne, 1), ZAt(QOne, 1)>> = foot.b
    /\ <<Ev(foot.x, QZero, 2), Ev(foot.y, QZero, 2), ZAt(QZero, 2)>> = foot.ad
    /\ <<Ev(foot.x, QOne, 2), Ev(foot.y, QOne, 2), ZAt(QOne, 2)>> = foot.bd
    /\ ZAt(Half, 1) = foot.top /\ ZAt(Half, 2) = QZero
    /\ Ev(foot.z2, QZero, 1) = foot.top /\ Ev(foot.z2, QZero, 2) = QZero
Emit == Step = MaxOps => EmitCase([machine |-> "cubic", seed |-> seed, steps |-> log])
=============================================================================
