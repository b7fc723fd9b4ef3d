------------------------------- MODULE Pepper -------------------------------
(* Control loop of a wheeled robot made of two masses (module pepper_mpc):  *)
(* queue of motion parameters, preview horizon, prediction of the motion of *)
(* base and body, tasks, state at any time of the horizon, next state,      *)
(* guesses of the solution and of the active set.                           *)
(* Time is counted in ms, everything else is an exact rational in SI units. *)
(* The orientation is a multiple k of an angle with rational sine/cosine.   *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxCycles

VARIABLES seed, par, m, q, h, x, old, acts, cycle, phase, chk, log
vars == <<seed, par, m, q, h, x, old, acts, cycle, phase, chk, log>>

UNL == -1
R(i, lo, hi) == RandInt(seed, 1000 * cycle + i, lo, hi)
N == par.N
T == Q(par.T, 1000)

\* ------------------------------------------------------------ 2d vectors
P2(a, b) == <<a, b>>
PAdd(a, b) == <<QAdd(a[1], b[1]), QAdd(a[2], b[2])>>
PSub(a, b) == <<QSub(a[1], b[1]), QSub(a[2], b[2])>>
PScale(k, a) == <<QMul(k, a[1]), QMul(k, a[2])>>
Turn(r, v) == <<QSub(QMul(r[1], v[1]), QMul(r[2], v[2])), QAdd(QMul(r[2], v[1]), QMul(r[1], v[2]))>>
Back(r) == <<r[1], QNeg(r[2])>>
RECURSIVE Pow(_, _)
Pow(r, k) == IF k = 0 THEN <<QOne, QZero>> ELSE IF k < 0 THEN Back(Pow(r, -k)) ELSE Turn(r, Pow(r, k - 1))
Unit == IF par.quarter THEN <<QZero, QOne>> ELSE <<Q(4, 5), Q(3, 5)>>
Rot(k) == IF par.quarter THEN Pow(Unit, k % 4) ELSE Pow(Unit, k)

\* --------------------------------------------- a coordinate: position, velocity, acceleration
\* constant jerk j during a time t
Move(s, j, t) ==
    LET t2 == QMul(t, t) IN
    [c |-> QAdd(QAdd(s.c, QMul(t, s.v)), QAdd(QMul(QMul(t2, Q(1, 2)), s.a), QMul(QMul(QMul(t2, t), Q(1, 6)), j))),
     v |-> QAdd(QAdd(s.v, QMul(t, s.a)), QMul(QMul(t2, Q(1, 2)), j)),
     a |-> QAdd(s.a, QMul(t, j))]
\* the jerk which leads to the velocity v at the end of an interval
JerkFor(s, v) == QMul(QDiv(QI(2), QMul(T, T)), QSub(QSub(v, s.v), QMul(T, s.a)))
Vec3(s) == <<s.c, s.v, s.a>>
St6(s) == Vec3(s[1]) \o Vec3(s[2])
\* CoP of two masses with respect to the base: moments of gravity and inertia
CoP(b, d, ms) ==
    LET tot == QI(ms.b + ms.d)
        one(i) == QDiv(QSub(QMul(QI(ms.d), QSub(d[i].c, b[i].c)),
                            QAdd(QMul(QMul(QI(ms.b), ms.hb), b[i].a), QMul(QMul(QI(ms.d), ms.hd), d[i].a))), tot)
    IN <<one(1), one(2)>>

\* ------------------------------------------------------------------ horizon
\* parameters which are valid at the end of an interval: the entry of the queue to which the last ms of it belongs
RECURSIVE EntryAt(_, _, _)
EntryAt(l, j, t) == IF j > Len(l) THEN 0
                    ELSE IF l[j].dur = UNL \/ t <= l[j].dur THEN j ELSE EntryAt(l, j + 1, t - l[j].dur)
Entries == [i \in 1..N |-> EntryAt(q, 1, i * par.T)]
Enough == \A i \in 1..N : Entries[i] # 0
RECURSIVE Ks(_, _)
Ks(e, i) == IF i = 0 THEN <<>> ELSE LET l == Ks(e, i - 1) IN Append(l, (IF i = 1 THEN m.k ELSE l[i - 1]) + q[e[i]].w)
Horizon == LET e == Entries ks == Ks(e, N) IN
    [k |-> ks, rot |-> [i \in 1..N |-> Rot(ks[i])],
     vel |-> [i \in 1..N |-> Turn(Rot(ks[i]), q[e[i]].vel)], pos |-> [i \in 1..N |-> q[e[i]].pos]]

\* the queue after some time
RECURSIVE After(_, _)
After(l, t) == IF l = <<>> \/ l[1].dur = UNL THEN l
               ELSE IF l[1].dur <= t THEN After(Tail(l), t - l[1].dur)
               ELSE <<[l[1] EXCEPT !.dur = @ - t]>> \o Tail(l)
After1(l, t) == IF l[1].dur = UNL THEN l ELSE <<[l[1] EXCEPT !.dur = Max2(0, @ - t)]>>
Shifted(t) == IF par.single THEN After1(q, t) ELSE After(q, t)
Durs(l) == [i \in 1..Len(l) |-> l[i].dur]

\* ------------------------------------------------------------------- random data
\* the exponent stays small when the angle has a denominator
MaxK == IF par.quarter THEN 99 ELSE 4
NewQueue(k) ==
    LET n == IF par.single THEN 1 ELSE IF R(201, 1, 4) = 1 THEN R(200, 5, 9) ELSE R(200, 0, 4)
        dur(i) == CASE n > 4 /\ i < n -> R(220 + i, 0, par.T)     \* many short entries
                    [] R(210 + i, 1, 6) = 1 -> UNL
                    [] R(210 + i, 1, 6) = 2 -> N * par.T
                    [] R(210 + i, 1, 6) = 3 -> R(220 + i, 0, 2) * par.T
                    [] R(210 + i, 1, 6) = 4 -> N * par.T + R(220 + i, -1, 1)
                    [] OTHER -> R(220 + i, 0, 2 * N * par.T)
        w == IF par.quarter THEN R(230, -2, 2) ELSE IF k >= 1 THEN -1 ELSE IF k <= -1 THEN 1 ELSE R(230, -1, 1)
    IN [i \in 1..n |-> [dur |-> dur(i), vel |-> <<Q(R(240 + i, -4, 4), 2), Q(R(250 + i, -4, 4), 2)>>,
                        pos |-> <<QI(R(260 + i, -4, 4)), QI(R(270 + i, -4, 4))>>,
                        w |-> IF R(280 + i, 1, 2) = 1 THEN 0 ELSE w]]
RandCoord(i) == [c |-> Q(R(i, -8, 8), 4), v |-> Q(R(i + 1, -4, 4), 4), a |-> Q(R(i + 2, -4, 4), 4)]
RandMass == LET p == RandOf(<< <<3, 1>>, <<1, 1>>, <<1, 3>>, <<5, 3>>, <<2, 6>> >>, seed, 1000 * cycle + 300) IN
    [b |-> p[1], d |-> p[2], hb |-> Q(R(301, 1, 4), 8), hd |-> Q(R(302, 1, 8), 8)]
RandModel(k) == [b |-> <<RandCoord(310), RandCoord(320)>>, d |-> <<RandCoord(330), RandCoord(340)>>, ms |-> RandMass, k |-> k]
NewK == IF par.quarter THEN R(350, -5, 5) ELSE R(350, -1, 1)

RandPar(s) == LET r(i, lo, hi) == RandInt(s, i, lo, hi) IN
    [quarter |-> r(401, 1, 2) = 1, N |-> r(402, 1, IF r(401, 1, 2) = 1 THEN IF RandOf(<<125, 250, 500, 1000>>, s, 403) = 1000 THEN 9 ELSE 5 ELSE 3),
     T |-> RandOf(<<125, 250, 500, 1000>>, s, 403), sub |-> r(404, 1, 2),
     single |-> r(405, 1, 3) = 1, gain |-> Q(r(406, 1, 6), 2),
     rc |-> Q(r(407, 1, 9), 4), rv |-> Q(r(408, 1, 9), 4), ra |-> Q(r(409, 1, 9), 4),
     body |-> <<<<Q(r(410, -8, -1), 8), Q(r(411, 1, 8), 8)>>, <<Q(r(412, -8, -1), 8), Q(r(413, 1, 8), 8)>>>>]

Model0 == [b |-> St6(m.b), d |-> St6(m.d), ms |-> m.ms, k |-> m.k]
ModelObs(mm) == [b |-> St6(mm.b), d |-> St6(mm.d), ms |-> mm.ms, rot |-> Rot(mm.k), cop |-> CoP(mm.b, mm.d, mm.ms)]

Init ==
    /\ seed \in SeedLo..SeedHi
    /\ par = RandPar(seed)
    /\ cycle = 0
    /\ m = RandModel(NewK)
    /\ q = NewQueue(m.k)
    /\ h = <<>> /\ x = <<>> /\ old = <<>> /\ acts = <<>> /\ phase = "update" /\ chk = <<>>
    /\ log = <<[op |-> "setup", par |-> par, model |-> Model0, q |-> q, exp |-> [model |-> ModelObs(m), length |-> N]]>>

\* ------------------------------------------------------------------- control cycle
Update ==
    /\ phase = "update"
    /\ LET how == R(1, 1, 3)              \* update; update and shift; update and shift by some time
           t == IF how = 2 THEN par.T ELSE R(2, 0, 2 * par.T)
           ok == Enough
       IN
       /\ q' = IF ok /\ how > 1 THEN Shifted(t) ELSE q
       /\ h' = IF ok THEN Horizon ELSE <<>>
       /\ phase' = IF ok THEN "solve" ELSE "refill"
       /\ chk' = [q |-> q]
       /\ log' = Append(log, [op |-> "update", how |-> how, t |-> t,
            exp |-> IF ok THEN [status |-> "ok", rot |-> h'.rot, vel |-> h'.vel, pos |-> h'.pos, q |-> Durs(q'),
                                T |-> [i \in 1..N |-> par.T], ms |-> [i \in 1..N |-> m.ms],
                                nvar |-> 4 * N]
                    ELSE [status |-> "stopped", q |-> Durs(q)]])
    /\ UNCHANGED <<seed, par, m, x, old, acts, cycle>>

\* time passes without control, a new plan
Refill ==
    /\ phase \in {"refill", "renew"}
    /\ LET t == R(3, 0, 2 * par.T) IN
       /\ q' = NewQueue(m.k)
       /\ log' = log \o << [op |-> "shift", t |-> t, exp |-> [q |-> Durs(Shifted(t))]], [op |-> "plan", q |-> q', exp |-> [q |-> Durs(q')]] >>
    /\ cycle' = cycle + 1
    /\ phase' = IF cycle + 1 >= MaxCycles THEN "end" ELSE "update"
    /\ chk' = <<>>
    /\ UNCHANGED <<seed, par, m, h, x, old, acts>>

ShiftPairs(l, z) == [i \in 1..Len(l) |-> IF i < Len(l) THEN l[i + 1] ELSE z]
ZeroP == <<QZero, QZero>>
\* guess of the active set of one task with two rows per interval: activation types of the previous solution, shifted by an interval,
\* unless the loop is faster than the intervals (then the default guess of a modified task)
GuessOf1(a) == IF acts = <<>> \/ par.sub = 2 THEN [i \in 1..(2 * N) |-> 1]
               ELSE [i \in 1..(2 * N) |-> IF i + 2 <= 2 * N THEN a[i + 2] ELSE 1]

Solve ==
    /\ phase = "solve"
    /\ x' = [b |-> [i \in 1..N |-> <<Q(R(50 + 2 * i, -4, 4), 4), Q(R(51 + 2 * i, -4, 4), 4)>>],
             d |-> [i \in 1..N |-> <<QI(R(80 + 2 * i, -4, 4)), QI(R(81 + 2 * i, -4, 4))>>]]
    /\ acts' = [k \in 1..4 |-> [i \in 1..(2 * N) |-> R(100 + 20 * k + i, 1, 3)]]
    /\ phase' = "predict"
    /\ log' = Append(log, [op |-> "solve", b |-> x'.b, d |-> x'.d, acts |-> acts',
            exp |-> [guess |-> IF old = <<>> THEN [b |-> [i \in 1..N |-> ZeroP], d |-> [i \in 1..N |-> ZeroP]]
                               ELSE [b |-> ShiftPairs(old.b, ZeroP), d |-> ShiftPairs(old.d, ZeroP)],
                     acts |-> [k \in 1..4 |-> GuessOf1(IF acts = <<>> THEN <<>> ELSE acts[k])]]])
    /\ chk' = <<>>
    /\ UNCHANGED <<seed, par, m, q, h, old, cycle>>

\* states at the ends of the intervals; the first one is the current state
RECURSIVE Traj(_, _)
Traj(u, i) == IF i = 0 THEN << [b |-> m.b, d |-> m.d, j |-> <<>>] >>
    ELSE LET l == Traj(u, i - 1) s == l[i]
             j == <<JerkFor(s.b[1], u.b[i][1]), JerkFor(s.b[2], u.b[i][2])>>
         IN Append(l, [b |-> <<Move(s.b[1], j[1], T), Move(s.b[2], j[2], T)>>,
                       d |-> <<Move(s.d[1], u.d[i][1], T), Move(s.d[2], u.d[i][2], T)>>, j |-> j])
\* state at a time (ms); i: interval in which it lies; an interval contains its end
At(tr, t) ==
    LET i == IF t = 0 THEN 1 ELSE 1 + (t - 1) \div par.T
        o == Q(t - (i - 1) * par.T, 1000)
        s == tr[i]
    IN [b |-> <<Move(s.b[1], tr[i + 1].j[1], o), Move(s.b[2], tr[i + 1].j[2], o)>>,
        d |-> <<Move(s.d[1], x.d[i][1], o), Move(s.d[2], x.d[i][2], o)>>]
\* orientation at the middle and at the ends of an interval only (angles in between have no rational sine)
AtTurn(t) == LET i == IF t = 0 THEN 1 ELSE 1 + (t - 1) \div par.T
                 k0 == IF i = 1 THEN m.k ELSE h.k[i - 1] IN
             \* in units of the angle
             QAdd(QI(k0), QMul(Q(t - (i - 1) * par.T, par.T), QI(h.k[i] - k0)))

Margins(v, b) == << <<QSub(v[1], b[1][1]), QSub(v[2], b[2][1])>>, <<QSub(b[1][2], v[1]), QSub(b[2][2], v[2])>> >>
Square(r) == << <<QNeg(r), r>>, <<QNeg(r), r>> >>

Predict ==
    /\ phase = "predict"
    /\ LET tr == Traj(x, N)
           \* the part of the relative position of the body which does not depend on the controls
           free == Traj([b |-> [i \in 1..N |-> ZeroP], d |-> [i \in 1..N |-> ZeroP]], N)
           G(v) == PScale(par.gain, v)
           relof(r, i) == Turn(Back(h.rot[i]), <<QSub(r[i + 1].b[1].c, r[i + 1].d[1].c), QSub(r[i + 1].b[2].c, r[i + 1].d[2].c)>>)
           rel(i) == relof(tr, i)
           base(i) == <<tr[i + 1].b[1].c, tr[i + 1].b[2].c>>
           bvel(i) == <<tr[i + 1].b[1].v, tr[i + 1].b[2].v>>
           bacc(i) == <<tr[i + 1].b[1].a, tr[i + 1].b[2].a>>
           cop(i) == CoP(tr[i + 1].b, tr[i + 1].d, m.ms)
           late == R(6, 1, 8) = 1
           t == IF late THEN N * par.T + R(7, 1, 3) ELSE IF R(8, 1, 3) = 1 THEN R(5, 0, N) * par.T ELSE R(5, 0, 5 * N) * (par.T \div 5)
           nxt == [b |-> tr[2].b, d |-> tr[2].d, ms |-> m.ms, k |-> h.k[1]]
       IN
       /\ m' = nxt
       /\ chk' = [tr |-> tr, m0 |-> m]
       /\ log' = log \o <<
            [op |-> "predict",
             exp |-> [cop |-> [i \in 1..N |-> cop(i)], jerk |-> [i \in 1..N |-> tr[i + 1].j],
                      base |-> [i \in 1..N |-> St6(tr[i + 1].b)], body |-> [i \in 1..N |-> St6(tr[i + 1].d)]]],
            [op |-> "tasks",
             exp |-> [baseacc |-> [i \in 1..N |-> Margins(bacc(i), Square(par.ra))],
                      basevel |-> [i \in 1..N |-> Margins(bvel(i), Square(par.rv))],
                      bodypos |-> [i \in 1..N |-> Margins(rel(i), par.body)],
                      copbounds |-> [i \in 1..N |-> Margins(cop(i), Square(par.rc))],
                      basejerk |-> [i \in 1..N |-> G(tr[i + 1].j)],
                      baseref |-> [i \in 1..N |-> G(PSub(base(i), h.pos[i]))],
                      velref |-> [i \in 1..N |-> G(PSub(bvel(i), h.vel[i]))],
                      bodyjerk |-> [i \in 1..N |-> G(x.d[i])],
                      copcenter |-> [i \in 1..N |-> G(cop(i))]]],
            \* alt: what the code does, see known_findings.json
            [op |-> "bodyref", exp |-> [v |-> [i \in 1..N |-> G(rel(i))]],
             alt |-> [v |-> [i \in 1..N |-> G(PSub(rel(i), PScale(QI(2), relof(free, i))))]]],
            [op |-> "at", t |-> t, exp |-> IF late THEN [throws |-> TRUE]
                ELSE LET s == At(tr, t) IN [b |-> St6(s.b), d |-> St6(s.d), turn |-> AtTurn(t), ms |-> m.ms]],
            [op |-> "next", exp |-> [model |-> ModelObs(nxt)]] >>
    /\ old' = x
    /\ phase' = "move"
    /\ UNCHANGED <<seed, par, q, h, x, acts, cycle>>

\* sometimes the robot is pushed, gets a new plan, or takes a load
Disturb ==
    /\ phase = "move"
    /\ LET push == R(9, 1, 4) = 1 IN
       /\ m' = IF push \/ (~par.quarter /\ Abs(m.k) > 1) THEN RandModel(NewK) ELSE m
       /\ q' = IF R(10, 1, 4) = 1 \/ m'.k # m.k THEN NewQueue(m'.k) ELSE q
       /\ log' = log \o (IF m' # m THEN <<[op |-> "model", model |-> [b |-> St6(m'.b), d |-> St6(m'.d), ms |-> m'.ms, k |-> m'.k],
                                             exp |-> [model |-> ModelObs(m')]]>> ELSE <<>>)
                     \o (IF q' # q THEN <<[op |-> "plan", q |-> q', exp |-> [q |-> Durs(q')]]>> ELSE <<>>)
    /\ cycle' = cycle + 1
    /\ phase' = IF cycle + 1 >= MaxCycles THEN "end" ELSE IF cycle + 2 < MaxCycles /\ R(11, 1, 6) = 1 THEN "retune" ELSE "update"
    /\ chk' = <<>>
    /\ UNCHANGED <<seed, par, h, x, old, acts>>
\* the controller gets other parameters, the problem is built anew, nothing is known about it
Retune ==
    /\ phase = "retune"
    /\ LET r == RandPar(7919 * seed + cycle) IN
       /\ par' = [r EXCEPT !.quarter = par.quarter, !.single = par.single, !.N = IF par.quarter THEN @ ELSE Min2(3, @)]
       /\ log' = Append(log, [op |-> "retune", par |-> par', exp |-> [model |-> ModelObs(m)]])
    /\ old' = <<>> /\ acts' = <<>> /\ h' = <<>> /\ chk' = <<>> /\ x' = <<>>
    /\ phase' = "renew"
    /\ UNCHANGED <<seed, m, q, cycle>>

Next == Retune \/ Update \/ Refill \/ Solve \/ Predict \/ Disturb
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- invariants
\* the horizon exists iff the plan is long enough
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN 0 ELSE IF l[1].dur = UNL THEN N * par.T ELSE Min2(N * par.T, l[1].dur + Total(Tail(l)))
PlanOK == phase \in {"solve", "refill"} => (phase = "solve") = (Total(chk.q) >= N * par.T)
\* shifting the plan does not change what happens when
SameEntry(a, b) == [a EXCEPT !.dur = 0] = [b EXCEPT !.dur = 0]
ShiftOK == phase = "solve" /\ ~par.single =>
    LET was == chk.q
        d == log[Len(log)].t * (IF log[Len(log)].how > 1 THEN 1 ELSE 0) IN
    \A i \in 1..(4 * N) : LET a == EntryAt(was, 1, i * (par.T \div 4) + d) b == EntryAt(q, 1, i * (par.T \div 4)) IN
        IF EntryAt(was, 1, 1) # 0 /\ was[EntryAt(was, 1, 1)].dur = UNL THEN b # 0
        ELSE (a = 0) = (b = 0) /\ (a # 0 => SameEntry(was[a], q[b]))
\* the base has the planned velocities, a prediction does not depend on how the time is split
PredictOK == phase = "move" => \A i \in 1..N :
    /\ <<chk.tr[i + 1].b[1].v, chk.tr[i + 1].b[2].v>> = x.b[i]
    /\ LET half == QMul(T, Q(1, 2)) s == chk.tr[i].b[1] j == chk.tr[i + 1].j[1] IN Move(Move(s, j, half), j, half) = chk.tr[i + 1].b[1]
\* the loop continues from the state predicted before
NextOK == phase = "move" => m.b = chk.tr[2].b /\ m.d = chk.tr[2].d /\ m.ms = chk.m0.ms /\ m.k = h.k[1]
Emit == phase = "end" => EmitCase([machine |-> "pepper", seed |-> seed, steps |-> log])
=============================================================================
