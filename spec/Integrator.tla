----------------------------- MODULE Integrator -----------------------------
(* Triple integrator p, v, a driven by a piecewise constant jerk.  The      *)
(* control over an interval of length T is either the jerk itself or the    *)
(* acceleration / velocity / position to be reached at the end of it.       *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps
VARIABLES seed, n, x, log, last
vars == <<seed, n, x, log, last>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 60 * Step + i, lo, hi)

\* exact flow of p' = v, v' = a, a' = j
Flow(s, j, t) ==
    LET t2 == QMul(t, t) t3 == QMul(t2, t) IN
    << QAdd(QAdd(s[1], QMul(s[2], t)), QAdd(QMul(s[3], QDiv(t2, QI(2))), QMul(j, QDiv(t3, QI(6))))),
       QAdd(QAdd(s[2], QMul(s[3], t)), QMul(j, QDiv(t2, QI(2)))),
       QAdd(s[3], QMul(j, t)) >>
\* the jerk which makes component c of the state equal to u at time T
JerkFor(c, s, u, T) ==
    LET free == Flow(s, QZero, T) unit == Flow(<<QZero, QZero, QZero>>, QOne, T) IN QDiv(QSub(u, free[c]), unit[c])
Jerk(ctl, s, u, T) == IF ctl = "jerk" THEN u ELSE JerkFor(CASE ctl = "pos" -> 1 [] ctl = "vel" -> 2 [] ctl = "acc" -> 3, s, u, T)

Init == /\ seed \in SeedLo..SeedHi
        /\ n = RandInt(seed, 0, 1, 3)
        /\ x = [k \in 1..n |-> [c \in 1..3 |-> QI(RandInt(seed, 10 * k + c, -6, 6))]]
        /\ log = <<>>
        /\ last = [ctl |-> "none"]

TimesQ == <<Q(1, 2), QI(1), QI(2), QI(3), Q(3, 2), Q(1, 10), QI(10), Q(1, 20), Q(1, 50)>>
Advance ==
    LET ctl == RandOf(<<"jerk", "acc", "vel", "pos">>, seed, 60 * Step + 1)
        T == RandOf(TimesQ, seed, 60 * Step + 2)
        u == [k \in 1..n |-> QI(R(10 + k, -6, 6))]
        frac == IF QLt(T, Q(1, 10)) THEN Q(R(3, 0, 2), 2) ELSE Q(R(3, 0, 4), 4)
        Ts == QMul(T, frac)
        js == [k \in 1..n |-> Jerk(ctl, x[k], u[k], T)]
        fin == [k \in 1..n |-> Flow(x[k], js[k], T)]
        sub == [k \in 1..n |-> Flow(x[k], js[k], Ts)]
    IN
    /\ last' = [ctl |-> ctl, T |-> T, Ts |-> Ts, u |-> u, j |-> js, x |-> x, fin |-> fin, sub |-> sub]
    /\ log' = Append(log, [op |-> ctl, T |-> T, Ts |-> Ts, x |-> Flat(x), u |-> u, n |-> n,
                           exp |-> IF ctl = "jerk" THEN [fin |-> Flat(fin)]
                                   ELSE [fin |-> Flat(fin), sub |-> Flat(sub), j |-> js]])
    \* go on from small integers: the exact fractions would grow without bound
    /\ x' = [k \in 1..n |-> [c \in 1..3 |-> QI(R(30 + 3 * k + c, -6, 6))]]
    /\ UNCHANGED <<seed, n>>
Next == Step < MaxOps /\ Advance
Spec == Init /\ [][Next]_vars

\* the control is reached, and the motion to Ts followed by the rest is the whole motion
ReachedOK == last.ctl \in {"acc", "vel", "pos"} =>
    \A k \in 1..n : last.fin[k][CASE last.ctl = "pos" -> 1 [] last.ctl = "vel" -> 2 [] last.ctl = "acc" -> 3] = last.u[k]
SemigroupOK == last.ctl # "none" => \A k \in 1..n : Flow(last.sub[k], last.j[k], QSub(last.T, last.Ts)) = last.fin[k]
Emit == Step = MaxOps => EmitCase([machine |-> "integrator", seed |-> seed, steps |-> log])
=============================================================================
