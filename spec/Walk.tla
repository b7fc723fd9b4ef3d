-------------------------------- MODULE Walk --------------------------------
(* Walking pattern generator (wpg04): a model predictive controller which   *)
(* chooses the CoP and the positions of footsteps over a preview horizon.   *)
(*                                                                          *)
(* One cycle of the control loop:                                           *)
(*   update  the horizon is formed for the measured state of the CoM, the   *)
(*           state of the feet, and the state of the stance machine;        *)
(*   solve   a solution (any: here it is chosen at random) is turned into   *)
(*           predicted motions; tasks must mean what they are for;          *)
(*   next    one sampling period later: the next state of the robot.        *)
(*                                                                          *)
(* Time is measured in subsampling periods ("ticks"), velocities and        *)
(* accelerations in units of w and w^2, where w = ln 2 / tick, so that      *)
(* exp(w tick) = 2 and all the numbers have the form a + c / ln 2.          *)
EXTENDS StanceOps
CONSTANTS SeedLo, SeedHi, MaxCycles, MaxTicks, Start345
VARIABLES seed, par, f, m, h, x, old, acts, cycle, phase, log, chk
vars == <<seed, par, f, m, h, x, old, acts, cycle, phase, log, chk>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 200 * Step + i, lo, hi)
RO(seq, i) == RandOf(seq, seed, 200 * Step + i)

\* ------------------------------------------------------ numbers a + c / ln 2
LN(a, c) == [a |-> a, c |-> c]
LQ(a) == LN(a, QZero)
LAdd(u, v) == LN(QAdd(u.a, v.a), QAdd(u.c, v.c))
LScale(k, v) == LN(QMul(k, v.a), QMul(k, v.c))
LSub(u, v) == LAdd(u, LScale(QI(-1), v))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN QOne ELSE QMul(QI(2), Pow2(k - 1))

\* ------------------------------------------------------------ plane geometry
\* vectors are pairs of rationals, rotations are pairs <<cos, sin>>
PAdd(a, b) == <<QAdd(a[1], b[1]), QAdd(a[2], b[2])>>
PSub(a, b) == <<QSub(a[1], b[1]), QSub(a[2], b[2])>>
PScale(k, a) == <<QMul(k, a[1]), QMul(k, a[2])>>
Turn(r, v) == <<QSub(QMul(r[1], v[1]), QMul(r[2], v[2])), QAdd(QMul(r[2], v[1]), QMul(r[1], v[2]))>>
Compose(r, s) == Turn(r, s)
Straight == <<QOne, QZero>>

\* ------------------------------------------------- motion of the CoM, one axis
\* s: [c, v : a + c/ln2, z : rational], the CoP moves from s.z to u during j ticks
Rate(s, u, j) == LN(QZero, QDiv(QSub(u, s.z), QI(j)))
After(s, u, j, t) ==
    LET zd == Rate(s, u, j)
        y0 == LSub(s.c, LQ(s.z))
        yd0 == LSub(s.v, zd)
        up == LScale(Pow2(t), LAdd(yd0, y0))
        dn == LScale(QInv(Pow2(t)), LSub(yd0, y0))
        y == LScale(Q(1, 2), LSub(up, dn))
        yd == LScale(Q(1, 2), LAdd(up, dn))
        z == QAdd(s.z, QMul(QSub(u, s.z), Q(t, j)))
    IN [c |-> LAdd(LQ(z), y), v |-> LAdd(yd, zd), z |-> z]
AccOf(s) == LSub(s.c, LQ(s.z))

\* ------------------------------------------------------- parameters, the robot
N == par.N
S == par.s                                                   \* ticks per sampling interval
RandPar ==
    LET p == RandInt(seed, 1, 1, 2)
        n == RandInt(seed, 2, 2, MaxTicks \div p)
        first == RandOf(<<DS, DS, LSS, RSS>>, seed, 3)
    IN [first |-> first, fss |-> RandOf(<<LSS, RSS>>, seed, 4),
        n |-> RandOf(<<0, 2, 2, 3, 4>>, seed, 5),
        ss |-> p * RandInt(seed, 6, 1, 3), tds |-> RandInt(seed, 7, 1, p), fd |-> RandInt(seed, 8, 1, 5),
        ld |-> n * p + RandInt(seed, 9, 0, 4),
        N |-> n, s |-> p, tick |-> RandOf(<<10, 50, 100>>, seed, 10),
        inc |-> RandOf(<<Straight, Straight, <<QZero, QOne>>, <<QZero, QI(-1)>>>>, seed, 11),
        cv |-> <<Q(RandInt(seed, 12, -4, 4), 4), Q(RandInt(seed, 13, -4, 4), 4)>>,
        fcv |-> <<Q(RandInt(seed, 14, -4, 4), 4), Q(RandInt(seed, 15, -4, 4), 4)>>,
        lcv |-> <<Q(RandInt(seed, 16, -4, 4), 4), Q(RandInt(seed, 17, -4, 4), 4)>>,
        \* feet: step length, distances, size of a foot
        msl |-> Q(RandInt(seed, 18, 1, 8), 4), mind |-> Q(RandInt(seed, 19, 1, 4), 4), maxd |-> Q(RandInt(seed, 20, 5, 9), 4),
        dd |-> Q(RandInt(seed, 21, 1, 4), 2), fl |-> Q(RandInt(seed, 22, 1, 6), 4), fw |-> Q(RandInt(seed, 23, 1, 4), 4),
        fix |-> RandInt(seed, 24, 1, 4) = 1, gain |-> RandOf(<<QOne, QI(2), Q(1, 2), QI(3)>>, seed, 25)]
Side(foot) == IF foot = LSS THEN QOne ELSE QI(-1)            \* left feet are on the positive side
Half(q) == QMul(q, Q(1, 2))
\* feet of an aligned double support at c with the orientation r
Aligned(c, r, foot) == PAdd(c, Turn(r, <<QZero, QMul(Side(foot), Half(par.dd))>>))
FootOf(t) == m.feet[t]                                        \* t: LSS or RSS
Mean(a, b) == PScale(Q(1, 2), PAdd(a, b))
SupportPos == LET by(t) == IF t \in {LSS, RSS} THEN m.feet[t].p ELSE Mean(m.feet[LSS].p, m.feet[RSS].p)
              IN by(IF m.stance = TDS THEN m.next ELSE m.stance)

\* ------------------------------------------------------------------ the horizon
Pre == PreviewFrom(par, f, N * S)
\* orientation of the stance j of the preview
RECURSIVE RotOf(_, _)
RotOf(l, j) ==
    LET s == l[j].st IN
    IF s.type = TDS THEN RotOf(l, j + 1)
    ELSE IF s.type = DS THEN (IF j >= 2 /\ l[j - 1].st.pnt \in {LSS, RSS}
                              THEN (IF j >= 3 THEN RotOf(l, j - 2) ELSE FootOf(l[j - 1].st.pnt).r)
                              ELSE FootOf(LSS).r)
    ELSE IF j = 1 THEN FootOf(s.type).r
    ELSE IF l[j - 1].st.pnt = DS THEN FootOf(s.type).r
    ELSE Compose(IF j >= 3 THEN RotOf(l, j - 2) ELSE FootOf(l[j - 1].st.pnt).r, par.inc)
VelOf(s) == IF s.type = DS THEN (IF s.sub = FIRST THEN par.fcv ELSE par.lcv) ELSE par.cv
\* intervals: [T, sup, new] duration, index of the stance which supports the robot, a new step?
Rep(k, e) == [i \in 1..k |-> e]
RECURSIVE IntervalsFrom(_, _)
IntervalsFrom(l, j) ==
    IF j > Len(l) THEN <<>>
    ELSE IF j = 1 /\ l[1].st.type # TDS THEN
        LET r == l[1].dur % S IN
        (IF r = 0 THEN <<>> ELSE <<[T |-> r, sup |-> 1, new |-> FALSE]>>) \o Rep(l[1].dur \div S, [T |-> S, sup |-> 1, new |-> FALSE])
            \o IntervalsFrom(l, 2)
    ELSE <<[T |-> IF j = 1 THEN l[1].dur ELSE par.tds, sup |-> j + 1, new |-> j > 1]>>
            \o Rep(l[j + 1].dur \div S, [T |-> S, sup |-> j + 1, new |-> FALSE]) \o IntervalsFrom(l, j + 2)
\* bounds of the CoP with respect to the support, of the step which leads to the stance s
CopBounds(s) == LET w == IF s.type = DS THEN QAdd(par.fw, par.dd) ELSE par.fw
                IN << <<QNeg(Half(par.fl)), Half(par.fl)>>, <<QNeg(Half(w)), Half(w)>> >>
StepBounds(s) ==
    LET y == QMul(Half(par.dd), IF s.type = DS THEN Side(Opp(s.pnt)) ELSE Side(s.type)) IN
    IF s.type # DS /\ s.pnt # DS
    THEN << <<QNeg(par.msl), par.msl>>, IF s.type = LSS THEN <<par.mind, par.maxd>> ELSE <<QNeg(par.maxd), QNeg(par.mind)>> >>
    ELSE << <<QZero, QZero>>, <<y, y>> >>
\* fixed steps: as long and as narrow as possible
StepBoundsFix(s) ==
    LET b == StepBounds(s) IN
    IF ~par.fix THEN b
    ELSE << <<b[1][2], b[1][2]>>, IF s.type = RSS THEN <<b[2][2], b[2][2]>> ELSE <<b[2][1], b[2][1]>> >>
Horizon ==
    LET l == Pre
        all == IntervalsFrom(l, 1)
        iv == SubSeq(all, 1, Min2(N, Len(all)))
        steps == SelectSeq([i \in 1..Len(iv) |-> i], LAMBDA i : iv[i].new)
        rot == [i \in 1..Len(iv) |-> RotOf(l, iv[i].sup)]
        \* the frame in which the k-th step is expressed: its preceding support
        pred(k) == LET i == steps[k] IN IF i = 1 THEN 0 ELSE iv[i - 1].sup
    IN [l |-> l, iv |-> iv, steps |-> steps, rot |-> rot, enough |-> Len(all) >= N,
        frame |-> [k \in 1..Len(steps) |-> RotOf(l, pred(k))]]

\* --------------------------------------------------------------- the predictions
\* sequences are built element by element (so that they are evaluated once)
RECURSIVE FootSeq(_)
FootSeq(k) == IF k = 0 THEN <<SupportPos>> ELSE LET q == FootSeq(k - 1) IN Append(q, PAdd(q[k], Turn(h.frame[k], x.d[k])))
StepsUpTo(i) == Cardinality({k \in 1..Len(h.steps) : h.steps[k] <= i})
RECURSIVE CopSeq(_, _)
CopSeq(fp, i) == IF i = 0 THEN <<>> ELSE Append(CopSeq(fp, i - 1), PAdd(fp[StepsUpTo(i) + 1], Turn(h.rot[i], x.u[i])))
Axis0(k) == [c |-> LQ(m.com[k].c), v |-> LQ(m.com[k].v), z |-> QSub(m.com[k].c, m.com[k].a)]
RECURSIVE TrajSeq(_, _)
TrajSeq(cop, i) == IF i = 0 THEN <<<<Axis0(1), Axis0(2)>>>>
                   ELSE LET q == TrajSeq(cop, i - 1) T == h.iv[i].T
                        IN Append(q, <<After(q[i][1], cop[i][1], T, T), After(q[i][2], cop[i][2], T, T)>>)
StVec(s) == <<s[1].c, s[1].v, AccOf(s[1]), s[2].c, s[2].v, AccOf(s[2])>>
Total == SumSeq([i \in 1..Len(h.iv) |-> h.iv[i].T])
\* the interval in which the moment t lies (a boundary belongs to the end of an interval) and its beginning
StartOf(i) == SumSeq([j \in 1..(i - 1) |-> h.iv[j].T])
IntervalAt(t) == CHOOSE i \in 1..Len(h.iv) : t <= StartOf(i) + h.iv[i].T /\ (i = 1 \/ t > StartOf(i))

\* ------------------------------------------------------------------------ guess
\* the CoP is shifted by one interval; steps are shifted when one of them is gone
GuessOf(o) ==
    LET nd == Len(h.steps) od == Len(o.d)
        zero == <<QZero, QZero>> IN
    [u |-> [i \in 1..N |-> IF i < N THEN o.u[i + 1] ELSE zero],
     d |-> IF od > nd THEN [k \in 1..nd |-> o.d[k + 1]] ELSE [k \in 1..nd |-> IF k <= od THEN o.d[k] ELSE zero]]
\* active sets: UNDEFINED 0, INACTIVE 1, LOWER 2, UPPER 3, EQUALITY 4 (see Constraints)
INACT == 1  EQ == 4
GuessActs ==
    LET nd == 2 * Len(h.steps) IN
    [cop |-> IF acts = <<>> THEN Rep(2 * N, INACT) ELSE [i \in 1..(2 * N) |-> IF i + 2 <= 2 * N THEN acts.cop[i + 2] ELSE INACT],
     d |-> IF par.fix THEN Rep(nd, EQ)
           ELSE IF acts = <<>> THEN Rep(nd, INACT)
           ELSE IF Len(acts.d) > nd THEN [i \in 1..nd |-> acts.d[i + 2]]
           ELSE [i \in 1..nd |-> IF i <= Len(acts.d) THEN acts.d[i] ELSE INACT]]

\* ------------------------------------------------------------------- transitions
Init ==
    /\ seed \in SeedLo..SeedHi
    /\ par = RandPar
    /\ f = Start(par)
    /\ LET r == IF Start345 THEN RandOf(<<Straight, <<QZero, QOne>>, <<Q(3, 5), Q(4, 5)>>, <<Q(-4, 5), Q(3, 5)>>>>, seed, 30) ELSE Straight
           c == <<Q(RandInt(seed, 31, -4, 4), 4), Q(RandInt(seed, 32, -4, 4), 4)>>
           gap == IF par.first = DS THEN QZero ELSE Q(RandInt(seed, 33, -2, 2), 4)   \* a step has been made
       IN m = [feet |-> [t \in {LSS, RSS} |-> [p |-> PAdd(Aligned(c, r, t), IF t = par.first THEN <<gap, QZero>> ELSE <<QZero, QZero>>),
                                              \* (one of them may stand higher)
                                              z |-> IF t = LSS THEN Q(1, 8) ELSE RandOf(<<Q(1, 8), Q(1, 4), QZero>>, seed, 34), r |-> r]],
               com |-> <<>>, stance |-> par.first, next |-> UNDEF]
    /\ h = <<>> /\ x = <<>> /\ old = <<>> /\ acts = <<>> /\ cycle = 0 /\ phase = "update" /\ chk = <<>>
    /\ log = <<[op |-> "setup", par |-> par, feet |-> [l |-> m.feet[LSS], r |-> m.feet[RSS]],
                exp |-> [support |-> SupportPos, length |-> N]]>>

RandCom == [k \in 1..2 |-> [c |-> Q(R(10 * k + 1, -4, 4), 4), v |-> Q(R(10 * k + 2, -4, 4), 4), a |-> Q(R(10 * k + 3, -4, 4), 4)]]
WState(l, j) == [type |-> l[j].st.type, sub |-> l[j].st.sub, dur |-> l[j].dur, rot |-> RotOf(l, j),
                 cop |-> IF l[j].st.type = TDS THEN <<>> ELSE CopBounds(l[j].st)]

Update ==
    /\ phase = "update"
    /\ m' = [m EXCEPT !.com = RandCom]
    /\ IF Pre = <<>>
       THEN /\ phase' = "end"
            /\ h' = <<>>
            /\ log' = Append(log, [op |-> "update", com |-> m'.com, exp |-> [status |-> "stopped"]])
       ELSE /\ h' = Horizon
            /\ phase' = "solve"
            /\ log' = Append(log, [op |-> "update", com |-> m'.com,
                exp |-> [status |-> "ok", steps |-> [k \in 1..Len(h'.steps) |-> h'.steps[k] - 1],
                         T |-> [i \in 1..N |-> h'.iv[i].T],
                         support |-> [i \in 1..N |-> LET s == h'.l[h'.iv[i].sup] IN
                            [type |-> s.st.type, rot |-> h'.rot[i], cop |-> CopBounds(s.st), cvel |-> Turn(h'.rot[i], VelOf(s.st))]],
                         bounds |-> [k \in 1..Len(h'.steps) |-> StepBounds(h'.l[h'.iv[h'.steps[k]].sup].st)],
                         nvar |-> 2 * N + 2 * Len(h'.steps)]])
    /\ chk' = <<>>
    /\ UNCHANGED <<seed, par, f, x, old, acts, cycle>>

Solve ==
    /\ phase = "solve"
    /\ LET nd == Len(h.steps)
           k == h.iv
           t == R(5, 0, Total)
           late == R(6, 1, 8) = 1
       IN
       /\ x' = [u |-> [i \in 1..N |-> <<Q(R(50 + 2 * i, -4, 4), 4), Q(R(51 + 2 * i, -4, 4), 4)>>],
                d |-> [i \in 1..nd |-> IF R(90, 1, 2) = 1 THEN <<Q(R(80 + 2 * i, -4, 4), 2), Q(R(81 + 2 * i, -4, 4), 2)>>
                        ELSE LET b == StepBounds(h.l[h.iv[h.steps[i]].sup].st) IN [c \in 1..2 |-> b[c][R(80 + 2 * i + c, 1, 2)]]]]
       /\ acts' = [cop |-> [i \in 1..(2 * N) |-> R(100 + i, 1, 3)], d |-> [i \in 1..(2 * nd) |-> R(130 + i, 1, 3)]]
       /\ phase' = "predict"
       /\ log' = Append(log, [op |-> "solve", u |-> x'.u, d |-> x'.d, acts |-> acts',
                exp |-> [guess |-> IF old = <<>> THEN [u |-> [i \in 1..N |-> <<QZero, QZero>>], d |-> [i \in 1..nd |-> <<QZero, QZero>>]]
                                   ELSE GuessOf(old),
                         acts |-> GuessActs,
                         copbounds |-> [i \in 1..N |-> CopBounds(h.l[h.iv[i].sup].st)],
                         stepbounds |-> [j \in 1..nd |-> StepBoundsFix(h.l[h.iv[h.steps[j]].sup].st)],
                         copzero |-> [i \in 1..N |-> PScale(par.gain, x'.u[i])]]])
    /\ chk' = <<>>
    /\ UNCHANGED <<seed, par, f, m, h, old, cycle>>

Predict ==
    /\ phase = "predict"
    /\ LET fp == FootSeq(Len(h.steps))
           cop == CopSeq(fp, N)
           tr0 == TrajSeq(cop, N)
           tr == [i \in 0..N |-> tr0[i + 1]]
           t == R(5, 0, Total)
           late == R(6, 1, 8) = 1
           rate(i) == [k \in 1..2 |-> Rate(tr[i - 1][k], cop[i][k], h.iv[i].T)]
           at == LET i == IntervalAt(t) IN [k \in 1..2 |-> After(tr[i - 1][k], cop[i][k], h.iv[i].T, t - StartOf(i))]
           G(v) == LScale(par.gain, v)
           ref(i) == Turn(h.rot[i], VelOf(h.l[h.iv[i].sup].st))
           f1 == ShiftTime(par, f, 1)
           nxt == [k \in 1..2 |-> After(tr[0][k], cop[1][k], h.iv[1].T, 1)]
           landing == f1.st.type = TDS /\ f1.tds /\ m.stance \in {LSS, RSS}
           swing == Opp(m.stance)
           sup == h.iv[h.steps[1]].sup
           land == [p |-> IF h.l[sup].st.type = DS THEN Aligned(fp[2], h.rot[h.steps[1]], swing) ELSE fp[2],
                    z |-> m.feet[m.stance].z, r |-> h.rot[h.steps[1]]]
           feet == IF landing THEN [m.feet EXCEPT ![swing] = land] ELSE m.feet
       IN
       /\ f' = f1
       /\ m' = [feet |-> feet, com |-> m.com, stance |-> f1.st.type, next |-> Shift(par, f1).st.type]
       /\ chk' = [cop |-> cop, tr |-> tr, landing |-> landing, foot |-> [k \in 1..Len(h.steps) |-> fp[k + 1]], bounds |->
                    IF landing THEN StepBounds(h.l[sup].st) ELSE <<>>, m0 |-> m]
       /\ log' = log \o <<
            [op |-> "predict", t |-> IF late THEN Total + 1 ELSE t,
             exp |-> [cop |-> cop, foot |-> [k \in 1..Len(h.steps) |-> fp[k + 1]],
                      rate |-> [i \in 1..N |-> rate(i)],
                      state |-> [i \in 1..N |-> StVec(tr[i])],
                      velocity |-> [i \in 1..N |-> [k \in 1..2 |-> G(LSub(tr[i][k].v, LQ(ref(i)[k])))]],
                      copvel |-> [i \in 1..N |-> [k \in 1..2 |-> G(rate(i)[k])]],
                      terminal |-> [k \in 1..2 |-> G(LAdd(tr[N][k].v, AccOf(tr[N][k])))],
                      at |-> IF late THEN [throws |-> TRUE] ELSE [v |-> StVec(at)],
                      land |-> IF m.stance \in {LSS, RSS} /\ h.steps # <<>>
                               THEN [p |-> land.p, z |-> land.z, r |-> land.r] ELSE [none |-> TRUE]]],
            [op |-> "next",
             exp |-> [com |-> StVec(nxt), stance |-> f1.st.type, next |-> Shift(par, f1).st.type,
                      l |-> feet[LSS], r |-> feet[RSS],
                      support |-> LET by(s) == IF s \in {LSS, RSS} THEN feet[s].p ELSE Mean(feet[LSS].p, feet[RSS].p)
                                  IN by(IF f1.st.type = TDS THEN Shift(par, f1).st.type ELSE f1.st.type)]] >>
    /\ old' = x
    /\ cycle' = cycle + 1
    /\ phase' = IF cycle + 1 >= MaxCycles THEN "end" ELSE IF R(7, 1, 6) = 1 THEN "retune" ELSE "update"
    /\ UNCHANGED <<seed, par, h, x, acts>>
\* the controller gets another horizon, other velocities and limits; nothing is known about the new problem
Retune ==
    /\ phase = "retune"
    /\ par' = [par EXCEPT !.N = R(20, 2, Min2(MaxTicks \div S, par.ld \div S)), !.fix = R(21, 1, 4) = 1, !.gain = RO(<<QOne, QI(2), Q(1, 2), QI(3)>>, 22),
                !.cv = <<Q(R(23, -4, 4), 4), Q(R(24, -4, 4), 4)>>, !.fcv = <<Q(R(25, -4, 4), 4), Q(R(26, -4, 4), 4)>>, !.lcv = <<Q(R(27, -4, 4), 4), Q(R(28, -4, 4), 4)>>,
                !.msl = Q(R(29, 1, 8), 4), !.mind = Q(R(30, 1, 4), 4), !.maxd = Q(R(31, 5, 9), 4)]
    /\ log' = Append(log, [op |-> "retune", par |-> par', exp |-> [support |-> SupportPos]])
    /\ h' = <<>> /\ x' = <<>> /\ old' = <<>> /\ acts' = <<>> /\ chk' = <<>>
    /\ phase' = "update"
    /\ UNCHANGED <<seed, f, m, cycle>>

Next == Update \/ Solve \/ Predict \/ Retune
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- invariants
\* the horizon follows the walk: each interval begins in the stance to which it belongs
HorizonOK == phase = "solve" =>
    /\ h.enough
    /\ \A i \in 1..N :
        LET g == ShiftTime(par, f, StartOf(i)) s == h.l[h.iv[i].sup].st IN
        IF g.st.type = TDS THEN Shift(par, g).st = s ELSE g.st = s
    /\ \A k \in 1..Len(h.steps) : LET g == ShiftTime(par, f, StartOf(h.steps[k])) IN g.st.type = TDS /\ g.time = 0
\* the CoP is where it was put, the CoM follows the pendulum: the state does not depend on how the time is split
PredictOK == chk # <<>> => \A i \in 1..N : \A k \in 1..2 :
    /\ chk.tr[i][k].z = chk.cop[i][k]
    /\ h.iv[i].T = 2 =>
        LET a == After(chk.tr[i - 1][k], chk.cop[i][k], 2, 1) IN After(a, chk.cop[i][k], 1, 1) = chk.tr[i][k]
\* feet move only when a foot lands; then it is where the plan had it, within the bounds if the solution was
Within(v, b) == \A c \in 1..2 : QLe(b[c][1], v[c]) /\ QLe(v[c], b[c][2])
FeetOK == chk # <<>> =>
    /\ \A t \in {LSS, RSS} : m.feet[t] # chk.m0.feet[t] => chk.landing /\ t = Opp(chk.m0.stance)
    /\ chk.landing /\ (m.next # DS \/ Within(x.d[1], chk.bounds)) => SupportPos = chk.foot[1]
    /\ chk.landing /\ Within(x.d[1], chk.bounds) =>
          \* distance between the feet in the frame of the support
          LET r == chk.m0.feet[chk.m0.stance] u == PSub(m.feet[Opp(chk.m0.stance)].p, r.p)
              v == Turn(<<r.r[1], QNeg(r.r[2])>>, u) IN
          IF m.next = DS THEN v = <<QZero, QMul(Side(Opp(chk.m0.stance)), par.dd)>> ELSE Within(v, chk.bounds)
    /\ chk.landing /\ m.next = DS => m.feet[LSS].r = m.feet[RSS].r
\* no motion of the support without a step
SupportOK == chk # <<>> /\ ~chk.landing /\ chk.m0.stance \in {LSS, RSS} /\ m.stance = chk.m0.stance => m.feet = chk.m0.feet
Emit == phase = "end" => EmitCase([machine |-> "walk", seed |-> seed, steps |-> log])
=============================================================================
