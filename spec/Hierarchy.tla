----------------------------- MODULE Hierarchy -----------------------------
(* The optimization problem as a state machine: levels of tasks, forming    *)
(* (with or without guessing of the active set), exports of the levels,     *)
(* conversion to a QP, violations and active sets.                          *)
(*                                                                          *)
(* A behaviour is a user's program: reset / push / form / query / process.  *)
(* Each step records in `log` the call and the observation that the         *)
(* implementation has to make; finished behaviours are printed and replayed *)
(* against the real code.                                                   *)
EXTENDS Constraints

CONSTANTS
    SeedLo, SeedHi,   \* behaviours (sampling) / data variants (exhaustive)
    Exhaustive,       \* TRUE: all the choices, FALSE: one per seed
    NumTasks,         \* number of tasks that exist
    MaxLevels,
    MaxVars,
    MaxRows,
    MaxOps,           \* length of the behaviour
    KindSet,          \* kinds (1..20) that may be used
    Ops,              \* enabled operations
    GuessMode,        \* "never" | "always" | "any": guess active sets when forming
    FlawRate,         \* one of so many formings is given data which do not fit together
    Focus             \* "any" | "qp": kinds of the last level restricted to equalities

VARIABLES seed, kinds, levels, nvars, data, actual, guess, status, qp, guessing, log

vars == <<seed, kinds, levels, nvars, data, actual, guess, status, qp, guessing, log>>

Tasks == 1..NumTasks
Step == Len(log)
H(i) == seed * 3 + 7 * Step + i
Pick(S, i) == ChooseFrom(Exhaustive, S, seed, 1000 + 50 * Step + i)
Rec(e) == log' = Append(log, e)

(* ----------------------------- level views ----------------------------- *)
Con(l) == [i \in 1..Len(levels[l]) |-> data[levels[l][i]]]     \* constraints of level l in order
LevelRows(cs) == SumSeq([i \in 1..Len(cs) |-> NumRows(cs[i])])
RowsIf(cs, P(_)) == SumSeq([i \in 1..Len(cs) |-> IF P(cs[i]) THEN NumRows(cs[i]) ELSE 0])
FilterC(cs, P(_)) == SelectSeq(cs, P)
Offsets(cs) == [i \in 1..Len(cs) |-> SumSeq([j \in 1..(i - 1) |-> NumRows(cs[j])])]
StackALU(cs) == [A |-> Flat([i \in 1..Len(cs) |-> AsALU(cs[i]).A]), lb |-> Flat([i \in 1..Len(cs) |-> AsALU(cs[i]).lb]),
                 ub |-> Flat([i \in 1..Len(cs) |-> AsALU(cs[i]).ub])]
StackAL(cs) == [A |-> Flat([i \in 1..Len(cs) |-> AsAL(cs[i]).A]), lb |-> Flat([i \in 1..Len(cs) |-> AsAL(cs[i]).lb])]
StackAB(cs) == [A |-> Flat([i \in 1..Len(cs) |-> AsAB(cs[i]).A]), b |-> Flat([i \in 1..Len(cs) |-> AsAB(cs[i]).b])]
StackILU(cs) == [I |-> Flat([i \in 1..Len(cs) |-> cs[i].I]), lb |-> Flat([i \in 1..Len(cs) |-> LowerV(cs[i])]),
                 ub |-> Flat([i \in 1..Len(cs) |-> UpperV(cs[i])])]
NotEq(c) == ~IsEquality(c)
General(c) == ~IsSimple(c)
TwoSided(c) == IsTwoSided(c)

\* what a formed level looks like from outside
LevelObs(l) ==
    LET cs == Con(l) IN
    [tasks  |-> levels[l],
     offs   |-> Offsets(cs),
     lens   |-> [i \in 1..Len(cs) |-> NumRows(cs[i])],
     all    |-> LevelRows(cs),
     simple |-> RowsIf(cs, IsSimple),
     gen    |-> RowsIf(cs, General),
     eq     |-> RowsIf(cs, IsEquality),
     ineq   |-> RowsIf(cs, NotEq),
     ineq1  |-> RowsIf(cs, NotEq) + RowsIf(cs, TwoSided),
     is_simple |-> \A i \in 1..Len(cs) : NumRows(cs[i]) > 0 => IsSimple(cs[i]),
     is_eq     |-> \A i \in 1..Len(cs) : NumRows(cs[i]) > 0 => IsEquality(cs[i])]

Throw == [throws |-> TRUE]

\* weighted simple constraints can not be converted to bounds on variables:
\* the library refuses
ExportObs(l) ==
    LET cs == Con(l)
        si == FilterC(cs, IsSimple)
    IN [alu |-> StackALU(cs),
        gen |-> StackALU(FilterC(cs, General)),
        al  |-> StackAL(FilterC(cs, NotEq)),
        ab  |-> StackAB(FilterC(cs, IsEquality)),
        ilu |-> IF RowsIf(cs, IsSimple) = 0 THEN [I |-> <<>>, lb |-> <<>>, ub |-> <<>>]
                ELSE IF \E i \in 1..Len(si) : si[i].fam = "GI" THEN Throw ELSE StackILU(si)]

SumATA(cs, n) == LET F[k \in 0..Len(cs)] == IF k = 0 THEN ZeroM(n, n) ELSE MAdd(F[k - 1], ATA(cs[k])) IN F[Len(cs)]
SumATb(cs, n) == LET F[k \in 0..Len(cs)] == IF k = 0 THEN ZeroV(n) ELSE VAdd(F[k - 1], ATb(cs[k])) IN F[Len(cs)]

ObjectiveObs(l) ==
    LET cs == Con(l) IN
    IF \E i \in 1..Len(cs) : ~IsEquality(cs[i]) THEN Throw
    ELSE [H |-> LowerTri(SumATA(cs, nvars)), g |-> SumATb(cs, nvars)]

(* --------------------------------- QP ---------------------------------- *)
\* tightest bounds on each of the variables
Tight(f, n) ==
    [lb |-> [v \in 1..n |-> LET S == {f.lb[i] : i \in {k \in 1..Len(f.I) : f.I[k] + 1 = v}} \cup {-INF} IN CHOOSE a \in S : \A b \in S : a >= b],
     ub |-> [v \in 1..n |-> LET S == {f.ub[i] : i \in {k \in 1..Len(f.I) : f.I[k] + 1 = v}} \cup {INF} IN CHOOSE a \in S : \A b \in S : a <= b]]

QPObj(cs, upper) ==
    LET simple == \A i \in 1..Len(cs) : NumRows(cs[i]) > 0 => IsSimple(cs[i])
        Hm == SumATA(cs, nvars)
    IN [H |-> IF upper THEN Hm ELSE LowerTri(Hm), g |-> VNeg(SumATb(cs, nvars)),
        type |-> IF simple THEN 2 ELSE IF upper THEN 1 ELSE 3, status |-> 1]

QPConstr(type, cs) ==
    LET si == FilterC(cs, IsSimple)
        f  == StackILU(si)
        t  == Tight(f, nvars)
    IN CASE type = "ILU_ALU" ->
               IF RowsIf(cs, IsSimple) > 0 /\ \E i \in 1..Len(si) : si[i].fam = "GI" THEN Throw
               ELSE IF Len(f.I) > 0 /\ \E v \in 1..nvars : t.lb[v] > t.ub[v] THEN Throw
               ELSE [gen |-> StackALU(FilterC(cs, General)), ilu |-> f,
                     lb |-> IF Len(f.I) = 0 THEN <<>> ELSE t.lb, ub |-> IF Len(f.I) = 0 THEN <<>> ELSE t.ub]
         [] type = "AB_AL" -> [ab |-> StackAB(FilterC(cs, IsEquality)), al |-> StackAL(FilterC(cs, NotEq))]
         [] type = "AB" -> IF \E i \in 1..Len(cs) : NumRows(cs[i]) > 0 /\ ~IsEquality(cs[i]) THEN Throw
                           ELSE [ab |-> StackAB(FilterC(cs, IsEquality))]
NoConstr(type) ==
    CASE type = "ILU_ALU" -> [gen |-> [A |-> <<>>, lb |-> <<>>, ub |-> <<>>], ilu |-> [I |-> <<>>, lb |-> <<>>, ub |-> <<>>], lb |-> <<>>, ub |-> <<>>]
      [] type = "AB_AL" -> [ab |-> [A |-> <<>>, b |-> <<>>], al |-> [A |-> <<>>, lb |-> <<>>]]
      [] type = "AB" -> [ab |-> [A |-> <<>>, b |-> <<>>]]

QPObs(type, upper) ==
    LET nl == Len(levels) IN
    IF nl \notin {1, 2} THEN Throw
    ELSE LET o == Con(nl) IN
         IF \E i \in 1..Len(o) : NumRows(o[i]) > 0 /\ ~IsEquality(o[i]) THEN Throw
         ELSE IF \E i \in 1..Len(o) : ~IsEquality(o[i]) THEN Throw     \* an inequality task without rows
         ELSE LET c == IF nl = 2 THEN QPConstr(type, Con(1)) ELSE NoConstr(type) IN
              IF "throws" \in DOMAIN c THEN Throw ELSE [obj |-> QPObj(o, upper), con |-> c]

(* ------------------------------- actions ------------------------------- *)
Init ==
    /\ seed \in SeedLo..SeedHi
    /\ kinds \in (IF Exhaustive THEN [Tasks -> KindSet]
                  ELSE {[t \in Tasks |-> RandOf(SetToSeq(KindSet), seed, 900 + t)]})
    /\ guessing \in (CASE GuessMode = "never" -> {FALSE} [] GuessMode = "always" -> {TRUE}
                       [] OTHER -> ChooseFrom(Exhaustive, BOOLEAN, seed, 899))
    /\ levels = <<>> /\ nvars = 0
    /\ data = <<>> /\ actual = [t \in Tasks |-> <<>>] /\ guess = [t \in Tasks |-> <<>>]
    /\ status = "empty" /\ qp = 0
    /\ log = << >>

Pushed == UNION {{levels[l][i] : i \in 1..Len(levels[l])} : l \in 1..Len(levels)}

Column(v) == [i \in 1..Len(v) |-> <<v[i]>>]
One(v) == <<<<v>>>>
AsObject(es) == [x \in {es[i][1] : i \in DOMAIN es} |-> es[CHOOSE i \in DOMAIN es : es[i][1] = x][2]]
DoReset ==
    \E nl \in Pick(1..MaxLevels, 1) :
        /\ levels' = [l \in 1..nl |-> <<>>]
        /\ status' = "unformed"
        /\ data' = <<>>
        /\ Rec([op |-> "reset", n |-> nl, exp |-> [levels |-> nl]])
        /\ UNCHANGED <<seed, kinds, nvars, actual, guess, qp, guessing>>

\* general tasks go to the front, simple tasks to the back of the level;
\* in the focus "qp" the last level takes equalities only
PushOK(t, l) == Focus = "qp" /\ l = Len(levels) => BndOf(kinds[t]) \in {"B", "B0"}
DoPush ==
    \E t \in Pick({u \in Tasks \ Pushed : \E k \in 1..Len(levels) : PushOK(u, k)}, 2) :
    \E l \in Pick({k \in 1..Len(levels) : PushOK(t, k)}, 3) :
        /\ levels' = [levels EXCEPT ![l] = IF FamOf(kinds[t]) \in {"I", "GI"} THEN Append(@, t) ELSE <<t>> \o @]
        /\ status' = "unformed" /\ data' = <<>>
        /\ Rec([op |-> "push", task |-> t, kind |-> KindOrder[kinds[t]], level |-> l - 1, exp |-> [ok |-> TRUE]])
        /\ UNCHANGED <<seed, kinds, nvars, actual, guess, qp, guessing>>

\* every task either changes (new data) or declares itself unmodified
\* (only possible if it has been formed with the same variables)
\* everything may happen far from the origin
Center(n) == [i \in 1..n |-> IF ~Exhaustive /\ seed % 3 = 0 THEN RandOf(<<0, 300, -170>>, seed, 7000 + i) ELSE 0]
DefaultGuess(c) == [r \in 1..NumRows(c) |-> IF IsEquality(c) THEN EQ ELSE INACTIVE]
DoForm ==
    LET same == data # <<>> /\ RandBool(seed, H(11))
        n    == IF same THEN nvars ELSE RandInt(seed, H(12), 1, MaxVars)
        unmod(t) == same /\ RandBool(seed, H(20 + t))
        nd   == [t \in Tasks |->
                   IF unmod(t) THEN data[t]
                   ELSE Around(GenConstraint(kinds[t], n, RandInt(seed, H(40 + t), 0, MaxRows), seed, 100 * H(0) + 2000 * t,
                                             RandInt(seed, H(60 + t), 0, 4) = 0), Center(n))]
        \* sometimes the data of a task do not fit together
        victims == {t \in Pushed : ~unmod(t) /\ Flaws(nd[t]) # {}}
        flawed == ~Exhaustive /\ victims # {} /\ RandInt(seed, H(15), 1, FlawRate) = 1
        victim == RandOf(SetToSeq(victims), seed, H(16))
        flaw == RandOf(SetToSeq(Flaws(nd[victim])), seed, H(17))
        given == IF flawed THEN [nd EXCEPT ![victim] = Flawed(@, flaw, RandBool(seed, H(18)))] ELSE nd
        bad  == \/ levels = <<>>
                \/ flawed
                \/ \E l \in 1..Len(levels) : levels[l] = <<>> \/ \A i \in 1..Len(levels[l]) : NumRows(nd[levels[l][i]]) = 0
        \* a task which declares itself unmodified must have the same size as its last known active set
        badset == guessing /\ \E t \in Pushed : unmod(t) /\ actual[t] # <<>> /\ Len(actual[t]) # NumRows(nd[t])
        g    == [t \in Tasks |-> IF t \notin Pushed THEN guess[t]
                                 ELSE IF unmod(t) /\ actual[t] # <<>> THEN actual[t] ELSE DefaultGuess(nd[t])]
        tdata == [i \in 1..NumTasks |-> [c |-> given[i], unmod |-> unmod(i)]]
    IN IF bad \/ badset
       THEN /\ status' = "failed"
            /\ data' = <<>>
            /\ Rec([op |-> "form", n |-> n, guess |-> guessing, tasks |-> tdata, exp |-> Throw])
            /\ UNCHANGED <<seed, kinds, levels, nvars, actual, guess, qp, guessing>>
       ELSE /\ nvars' = n /\ data' = nd /\ status' = "formed"
            /\ guess' = IF guessing THEN g ELSE guess
            /\ Rec([op |-> "form", n |-> n, guess |-> guessing, tasks |-> tdata,
                    exp |-> [levels |-> [l \in 1..Len(levels) |->
                               LET cs == [i \in 1..Len(levels[l]) |-> nd[levels[l][i]]] IN
                               [tasks |-> levels[l], offs |-> Offsets(cs), lens |-> [i \in 1..Len(cs) |-> NumRows(cs[i])],
                                all |-> LevelRows(cs), simple |-> RowsIf(cs, IsSimple), gen |-> RowsIf(cs, General),
                                eq |-> RowsIf(cs, IsEquality), ineq |-> RowsIf(cs, NotEq),
                                ineq1 |-> RowsIf(cs, NotEq) + RowsIf(cs, TwoSided),
                                is_simple |-> \A i \in 1..Len(cs) : NumRows(cs[i]) > 0 => IsSimple(cs[i]),
                                is_eq     |-> \A i \in 1..Len(cs) : NumRows(cs[i]) > 0 => IsEquality(cs[i])]],
                             guess |-> IF guessing THEN [l \in 1..Len(levels) |-> Flat([i \in 1..Len(levels[l]) |-> g[levels[l][i]]])]
                                       ELSE <<>>]])
            /\ UNCHANGED <<seed, kinds, levels, actual, qp, guessing>>

Query(e) == Rec(e) /\ UNCHANGED <<seed, kinds, levels, nvars, data, actual, guess, status, qp, guessing>>

DoExport ==
    Query([op |-> "export", exp |-> [levels |-> [l \in 1..Len(levels) |-> ExportObs(l)]]])
DoObjective ==
    Query([op |-> "objective", exp |-> [levels |-> [l \in 1..Len(levels) |-> ObjectiveObs(l)]]])
DoQP ==
    \E ty \in Pick({"ILU_ALU", "AB_AL", "AB"}, 4), u \in Pick(BOOLEAN, 5) :
        Query([op |-> "qp", type |-> ty, upper |-> u, exp |-> QPObs(ty, u)])

\* a point: random, sometimes chosen such that a row is exactly on its bound
Point == Point2([i \in 1..nvars |-> Center(nvars)[i] + RandInt(seed, H(70 + i), -3, 3)],
                [i \in 1..nvars |-> IF RandBool(seed, H(90)) THEN 0 ELSE RandInt(seed, H(91 + i), -1, 1)])
Plain == [Point EXCEPT !.y = [i \in 1..nvars |-> 0]]
X30(p) == [i \in 1..Len(p.x) |-> E30(<<p.x[i], p.y[i]>>)]
DoViolations ==
    Query([op |-> "violations", x |-> X30(Point), exp |-> [levels |->
            [l \in 1..Len(levels) |-> LET cs == Con(l) vs == [i \in 1..Len(cs) |-> ViolationsOf(cs[i], Point)] IN
              [v |-> Flat([i \in 1..Len(cs) |-> vs[i].v]), lo |-> Flat([i \in 1..Len(cs) |-> vs[i].lo]), up |-> Flat([i \in 1..Len(cs) |-> vs[i].up])]]]])
LevelAS(l, x) == LET cs == Con(l) IN Flat([i \in 1..Len(cs) |-> ActiveSetOf(cs[i], x)])
CountActive(a) == Len(SelectSeq(a, LAMBDA v : v \in {LOWER, UPPER}))
DoActiveSet ==
    Query([op |-> "activeset", x |-> X30(Point), exp |-> [levels |-> [l \in 1..Len(levels) |-> LevelAS(l, Point)],
                                                     active |-> [l \in 1..Len(levels) |-> CountActive(LevelAS(l, Point))]]])

\* the solver returns an active set, the tasks get their parts
DoProcess ==
    LET as == [l \in 1..Len(levels) |-> [r \in 1..LevelRows(Con(l)) |-> RandInt(seed, H(200 + 20 * l + r), 0, 4)]]
        part(t) == LET l == CHOOSE k \in 1..Len(levels) : \E i \in 1..Len(levels[k]) : levels[k][i] = t
                       i == CHOOSE k \in 1..Len(levels[l]) : levels[l][k] = t
                       cs == Con(l)
                   IN Seg(as[l], Offsets(cs)[i] + 1, NumRows(cs[i]))
        na == [t \in Tasks |-> IF t \in Pushed THEN part(t) ELSE actual[t]]
    IN /\ actual' = na
       /\ Rec([op |-> "process", nt |-> NumTasks, as |-> as, exp |-> [actual |-> [t \in Tasks |-> na[t]]]])
       /\ UNCHANGED <<seed, kinds, levels, nvars, data, guess, status, qp, guessing>>

\* calls which make no sense are refused and change nothing
DoMisuse ==
    \E which \in Pick({"push", "fewer", "more"}, 7), d \in Pick(0..2, 8) :
        Query([op |-> "misuse", which |-> which, task |-> RandOf(SetToSeq(Tasks), seed, H(9)), kind |-> KindOrder[kinds[RandOf(SetToSeq(Tasks), seed, H(9))]],
               level |-> Len(levels) + d, exp |-> Throw])

(* ------------------------------ QP solvers ------------------------------ *)
\* The bridges to solvers: what the solver is given, what is made of its answer.
\* An answer is arbitrary: a point, a status and working sets (-1: lower bound, 0: free, 1: upper bound).
QPType(solver) == IF solver = "quadprogpp" THEN "AB_AL" ELSE "ILU_ALU"
Reg(m, r) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> IF i = j THEN m[i][j] + r ELSE m[i][j]]]
Column1(n, v) == [i \in 1..n |-> v]
NoSet == "none"
\* the simple constraints of the first level: sequence of [v: variable, lb, ub] in their order
Working(a) == CASE a \in {LOWER, EQ} -> -1 [] a = UPPER -> 1 [] OTHER -> 0
\* guess for the variables; constraints which disagree about a variable leave it open
GuessBounds(f, ga) ==
    [v \in 1..nvars |-> LET S == {Working(ga[i]) : i \in {k \in 1..Len(f.I) : f.I[k] + 1 = v}} \ {0} IN
        IF S = {} THEN 0 ELSE IF Cardinality(S) = 1 THEN CHOOSE s \in S : TRUE ELSE 77777777]
\* the active set which belongs to the answer: a bound on a variable belongs to the constraints which impose it
ActiveOf(w) == CASE w = -1 -> LOWER [] w = 1 -> UPPER [] OTHER -> INACTIVE
ActiveBounds(f, t, wb) ==
    [i \in 1..Len(f.I) |-> LET v == f.I[i] + 1 IN
        CASE wb[v] = -1 -> (IF f.lb[i] = t.lb[v] THEN LOWER ELSE INACTIVE)
          [] wb[v] = 1 -> (IF f.ub[i] = t.ub[v] THEN UPPER ELSE INACTIVE)
          [] OTHER -> INACTIVE]
Ones(n) == [i \in 1..n |-> 0]
PartOf(as, t) ==
    LET l == CHOOSE k \in 1..Len(levels) : \E i \in 1..Len(levels[k]) : levels[k][i] = t
        i == CHOOSE k \in 1..Len(levels[l]) : levels[l][k] = t
        cs == Con(l)
    IN Seg(as[l], Offsets(cs)[i] + 1, NumRows(cs[i]))
DoSolve ==
    \E solver \in Pick({"qpoases", "qpmad", "quadprogpp"}, 10) :
    LET nl == Len(levels)
        oases == solver = "qpoases"
        type == QPType(solver)
        upper == solver # "qpmad"
        q == QPObs(type, upper)
        crash == RandBool(seed, H(12))
        asqp == RandInt(seed, H(13), 0, 7) # 0
        reg == IF oases \/ RandBool(seed, H(14)) THEN 0 ELSE RandInt(seed, H(15), -1, 5)
        maxit == RandInt(seed, H(16), 1, 500)
        time == RandOf(<<0, 0, 3>>, seed, H(17))
        tol == RandInt(seed, H(18), 1, 100)
        sg == oases /\ RandBool(seed, H(19))
        ag == oases /\ RandBool(seed, H(20))
        ret == oases /\ RandBool(seed, H(21))
        ext == RandBool(seed, H(22))
        code == RandOf(<<"ok", "ok", "ok", "max", "other">>, seed, H(23))
        x == [i \in 1..nvars |-> RandInt(seed, H(30 + i), -9, 9)]
        gx == [i \in 1..nvars |-> RandInt(seed, H(40 + i), -9, 9)]
        ga == [l \in 1..nl |-> IF guessing /\ RandBool(seed, H(24)) THEN Flat([i \in 1..Len(levels[l]) |-> guess[levels[l][i]]])
                              ELSE [r \in 1..LevelRows(Con(l)) |-> RandOf(<<LOWER, UPPER, INACTIVE, EQ, LOWER, UPPER, INACTIVE, EQ, EQ,
                                                                           IF RandInt(seed, H(25), 0, 3) = 0 THEN UNDEF ELSE EQ>>, seed, H(300 + 20 * l + r))]]
        wb == [i \in 1..nvars |-> RandInt(seed, H(50 + i), -1, 1)]
        wc == [i \in 1..50 |-> RandInt(seed, H(400 + i), -1, 1)]
        it == RandInt(seed, H(26), 0, 400)
        badguess == ag /\ nl = 2 /\ \E r \in 1..Len(ga[1]) : ga[1][r] = UNDEF
        refused == ~asqp \/ "throws" \in DOMAIN q \/ badguess \/ reg < 0
        gen == q.con.gen
        ilu == q.con.ilu
        m == Len(gen.A)
        tight == [lb |-> q.con.lb, ub |-> q.con.ub]
        call ==
            IF oases THEN [H |-> q.obj.H, g |-> q.obj.g,
                           A |-> IF m = 0 THEN NoSet ELSE gen.A, lbA |-> IF m = 0 THEN NoSet ELSE gen.lb, ubA |-> IF m = 0 THEN NoSet ELSE gen.ub,
                           lb |-> IF Len(ilu.I) = 0 THEN NoSet ELSE q.con.lb, ub |-> IF Len(ilu.I) = 0 THEN NoSet ELSE q.con.ub,
                           nwsr |-> maxit, time |-> IF time = 0 THEN NoSet ELSE time, tol |-> tol,
                           x0 |-> IF sg THEN gx ELSE NoSet, y0 |-> FALSE, definite |-> FALSE,
                           wc |-> IF ~ag THEN NoSet ELSE [i \in 1..m |-> Working(ga[1][i])],
                           wb |-> IF ~ag THEN NoSet ELSE GuessBounds(ilu, [i \in 1..Len(ilu.I) |-> ga[1][m + i]])]
            ELSE IF solver = "qpmad" THEN [H |-> LowerTri(Reg(q.obj.H, reg)), g |-> q.obj.g, A |-> gen.A, lbA |-> gen.lb, ubA |-> gen.ub, lb |-> q.con.lb, ub |-> q.con.ub]
            ELSE [H |-> Reg(q.obj.H, reg), g |-> q.obj.g, Ae |-> q.con.ab.A, be |-> q.con.ab.b, A |-> q.con.al.A, lbA |-> q.con.al.lb]
        result == CASE code = "ok" -> 1 [] code = "max" /\ solver # "quadprogpp" -> 2 [] OTHER -> 3
        as == IF nl = 1 THEN <<Column1(LevelRows(Con(1)), EQ)>>
              ELSE <<[r \in 1..LevelRows(Con(1)) |-> IF r <= m THEN ActiveOf(wc[r]) ELSE ActiveBounds(ilu, tight, wb)[r - m]],
                     Column1(LevelRows(Con(2)), EQ)>>
        failed == crash /\ result # 1
        back == ~refused /\ ~failed /\ ret
    IN /\ Rec([op |-> "solve", solver |-> solver, crash |-> crash, asqp |-> asqp, reg |-> reg, maxit |-> maxit, time |-> time, tol |-> tol,
               sg |-> sg, ag |-> ag, ret |-> ret, ext |-> ext, given |-> RandBool(seed, H(27)), gx |-> gx, ga |-> ga,
               x |-> x, code |-> code, wb |-> wb, wc |-> wc, it |-> it, nt |-> NumTasks,
               exp |-> IF refused THEN [calls |-> 0, failed |-> TRUE]
                       ELSE [calls |-> 1, call |-> call, failed |-> failed,
                             x |-> IF failed THEN 77777777 ELSE x, status |-> IF failed THEN 77777777 ELSE result,
                             code |-> IF failed \/ ~ext THEN 77777777 ELSE code, it |-> IF failed \/ ~ext \/ ~oases THEN 77777777 ELSE it,
                             log |-> IF failed \/ ~ext THEN 77777777 ELSE
                                 [entries |-> AsObject(<<<<"r.sol.x", Column(x)>>, <<"r.sol.status", One(result)>>>>
                                     \o CASE oases -> <<<<"r.sol.number_of_iterations", One(it)>>, <<"r.sol.qpoases_return_value", 77777777>>>>
                                          [] solver = "qpmad" -> <<<<"r.sol.qpmad_return_value", 77777777>>>>
                                          [] OTHER -> <<<<"r.sol.quadprogpp_return_value", 77777777>>>>), repeated |-> 0],
                             ok |-> IF failed \/ ~ext \/ oases THEN 77777777 ELSE code = "ok",
                             as |-> IF back THEN as ELSE 77777777]])
       /\ actual' = IF back THEN [t \in Tasks |-> IF t \in Pushed THEN PartOf(as, t) ELSE actual[t]] ELSE actual
       /\ UNCHANGED <<seed, kinds, levels, nvars, data, guess, status, qp, guessing>>

(* ---------------------------- what is logged ---------------------------- *)
\* Entries of a log: sequences of <<name, value>>, matrices are lists of rows.
Sub(name, i) == name \o "{" \o ToString(i) \o "}"
EntriesOfConstraint(p, c) ==
    <<<<p \o ".number_of_variables", One(nvars)>>>>
    \o (IF IsSimple(c) THEN <<<<p \o ".A", Column(c.I)>>>> ELSE <<<<p \o ".A", c.A>>>>)
    \o (IF c.fam = "GI" THEN <<<<p \o ".Agains", Column(c.G)>>>> ELSE <<>>)
    \o (IF c.fam = "AS" THEN <<<<p \o ".offset", One(c.off)>>>> ELSE <<>>)
    \o (IF c.bnd \in {"LU", "L"} THEN <<<<p \o ".lb", Column(c.L)>>>> ELSE <<>>)
    \o (IF c.bnd \in {"LU", "U"} THEN <<<<p \o ".ub", Column(c.U)>>>> ELSE <<>>)
    \o (IF c.bnd = "B" THEN <<<<p \o ".b", Column(c.B)>>>> ELSE <<>>)
EntriesOfTask(p, l, i) ==
    LET t == levels[l][i] IN
    <<<<p \o ".location.offset", One(Offsets(Con(l))[i])>>, <<p \o ".location.length", One(NumRows(data[t]))>>,
      <<p \o ".id", "t" \o ToString(t)>>,
      <<p \o ".active_set_guess", Column(guess[t])>>, <<p \o ".active_set_actual", Column(actual[t])>>>>
    \o EntriesOfConstraint(p, data[t])
EntriesOfProblem(p) ==
    Flat([l \in 1..Len(levels) |-> Flat([i \in 1..Len(levels[l]) |-> EntriesOfTask(Sub(Sub(p, l), i), l, i)])])
EntriesOfQP(p, type, upper) ==
    LET q == QPObs(type, upper)
        hes == q.obj.H
        o == p \o ".objective"
        k == p \o ".constraints"
    IN <<<<o \o ".H", IF upper THEN hes ELSE [i \in 1..Len(hes) |-> [j \in 1..Len(hes) |-> IF j > i THEN 77777777 ELSE hes[i][j]]]>>,
         <<o \o ".g", Column(q.obj.g)>>, <<o \o ".hessian_type", One(q.obj.type)>>, <<o \o ".status", One(1)>>>>
       \o (CASE type = "ILU_ALU" ->
                  <<<<k \o ".bounds.A", Column(q.con.ilu.I)>>, <<k \o ".bounds.lb", Column(q.con.ilu.lb)>>, <<k \o ".bounds.ub", Column(q.con.ilu.ub)>>,
                    <<k \o ".general_constraints.A", q.con.gen.A>>, <<k \o ".general_constraints.lb", Column(q.con.gen.lb)>>,
                    <<k \o ".general_constraints.ub", Column(q.con.gen.ub)>>, <<k \o ".lb", Column(q.con.lb)>>, <<k \o ".ub", Column(q.con.ub)>>>>
             [] type = "AB_AL" ->
                  <<<<k \o ".equality_constraints.A", q.con.ab.A>>, <<k \o ".equality_constraints.b", Column(q.con.ab.b)>>,
                    <<k \o ".inequality_constraints.A", q.con.al.A>>, <<k \o ".inequality_constraints.lb", Column(q.con.al.lb)>>>>
             [] type = "AB" ->
                  <<<<k \o ".equality_constraints.A", q.con.ab.A>>, <<k \o ".equality_constraints.b", Column(q.con.ab.b)>>>>)
DoLog ==
    \E ty \in Pick({"ILU_ALU", "AB_AL", "AB"}, 4), u \in Pick(BOOLEAN, 5), name \in Pick({"", "h"}, 6) :
        LET type == IF "throws" \in DOMAIN QPObs(ty, u) THEN "none" ELSE ty
            es == EntriesOfProblem(IF name = "" THEN "p.tasks" ELSE "p.h.tasks")
                  \o <<<<"p.sol.x", Column(Plain.x)>>>>
                  \o Flat([l \in 1..Len(levels) |->
                        LET cs == Con(l) vs == [i \in 1..Len(cs) |-> ViolationsOf(cs[i], Plain)] p == Sub("p.viol", l) IN
                        <<<<p \o ".violations", Column(Flat([i \in 1..Len(cs) |-> vs[i].v]))>>,
                          <<p \o ".lower_bound_diff", Column(Flat([i \in 1..Len(cs) |-> vs[i].lo]))>>,
                          <<p \o ".upper_bound_diff", Column(Flat([i \in 1..Len(cs) |-> vs[i].up]))>>,
                          <<Sub("p.as", l), Column(LevelAS(l, Plain))>>>>])
                  \o (IF type = "none" THEN <<>> ELSE EntriesOfQP("p.qp", type, u))
        IN Query([op |-> "log", x |-> Plain.x, type |-> type, upper |-> u, name |-> name,
                  exp |-> [entries |-> AsObject(es), repeated |-> 0]])

Enabled ==
    {o \in Ops :
        CASE o = "reset" -> status # "unformed" \/ Pushed # {} \/ ~\E t \in Tasks : \E l \in 1..Len(levels) : PushOK(t, l)
          [] o = "push"  -> status \in {"unformed", "formed"} /\ \E t \in Tasks \ Pushed : \E l \in 1..Len(levels) : PushOK(t, l)
          [] o = "form"  -> status \in {"unformed", "formed"} /\ levels # <<>>
                            /\ (Pushed = {} => RandInt(seed, H(5), 0, 9) = 0)
          [] o = "misuse" -> status # "empty"
          [] OTHER -> status = "formed"}
\* sampling: favour completing the hierarchy before forming
Weighted ==
    LET E == Enabled IN
    IF Exhaustive THEN E
    ELSE IF status = "unformed" /\ "push" \in E /\ (\E l \in 1..Len(levels) : levels[l] = <<>>) /\ RandInt(seed, H(6), 0, 19) # 0
         THEN {"push"} \cup (E \cap {"misuse"})
    ELSE IF status = "unformed" /\ "form" \in E /\ RandInt(seed, H(7), 0, 2) = 0 THEN {"form"}
    ELSE IF E \ {"reset"} # {} /\ RandInt(seed, H(8), 0, 7) # 0 THEN E \ {"reset"} ELSE E

Next ==
    /\ Step < MaxOps
    /\ \E o \in Pick(Weighted, 0) :
        CASE o = "reset" -> DoReset
          [] o = "push" -> DoPush
          [] o = "misuse" -> DoMisuse
          [] o = "form" -> DoForm
          [] o = "export" -> DoExport
          [] o = "objective" -> DoObjective
          [] o = "qp" -> DoQP
          [] o = "violations" -> DoViolations
          [] o = "activeset" -> DoActiveSet
          [] o = "process" -> DoProcess
          [] o = "log" -> DoLog
          [] o = "solve" -> DoSolve

Spec == Init /\ [][Next]_vars

(* ------------------- properties of the specification ------------------- *)
Grid(n) == {[i \in 1..n |-> f[i] + Center(n)[i]] : f \in [1..n -> {-2, 0, 1}]}
SmallProblem == status = "formed" /\ nvars <= 3

\* the locations of the tasks partition the rows of the level, general first
LocationsOK ==
    status = "formed" =>
        \A l \in 1..Len(levels) :
            LET cs == Con(l) o == Offsets(cs) IN
            /\ \A i \in 1..Len(cs) : o[i] + NumRows(cs[i]) = (IF i = Len(cs) THEN LevelRows(cs) ELSE o[i + 1])
            /\ \A i, j \in 1..Len(cs) : i < j /\ IsSimple(cs[i]) => IsSimple(cs[j])
\* all the exports have the same solution set as the tasks of the level
ExportsOK ==
    SmallProblem =>
        \A l \in 1..Len(levels) : LET cs == Con(l) e == ExportObs(l) IN
            \A x \in Grid(nvars) :
                LET all == \A i \in 1..Len(cs) : Satisfied(cs[i], x) IN
                /\ SatALU(e.alu, x) = all
                /\ (SatAL(e.al, x) /\ SatAB(e.ab, x)) = all
                /\ "throws" \notin DOMAIN e.ilu => (SatALU(e.gen, x) /\ SatILU(e.ilu, x)) = all
\* the objective is the sum of squares of the residuals
ObjectiveOK ==
    SmallProblem =>
        \A l \in 1..Len(levels) : LET cs == Con(l) Hm == SumATA(cs, nvars) g == SumATb(cs, nvars) IN
            (\A i \in 1..Len(cs) : IsEquality(cs[i])) =>
                \A x \in Grid(nvars) :
                    LET sq(c) == SumSeq([r \in 1..NumRows(c) |-> (RowVal(c, r, x) - LowerOf(c, r)) * (RowVal(c, r, x) - LowerOf(c, r))])
                        b2(c) == SumSeq([r \in 1..NumRows(c) |-> LowerOf(c, r) * LowerOf(c, r)])
                    IN Dot(x, MV(Hm, x)) - 2 * Dot(g, x) + SumSeq([i \in 1..Len(cs) |-> b2(cs[i])])
                         = SumSeq([i \in 1..Len(cs) |-> sq(cs[i])])
\* the box of the QP is the intersection of the simple constraints
QPBoxOK ==
    SmallProblem /\ Len(levels) = 2 =>
        LET c == QPConstr("ILU_ALU", Con(1)) IN
        "throws" \notin DOMAIN c /\ c.lb # <<>> =>
            \A x \in Grid(nvars) : SatILU(c.ilu, x) = (\A v \in 1..nvars : c.lb[v] <= x[v] /\ x[v] <= c.ub[v])
\* violations and active sets agree with satisfaction, also next to a bound
ViolationsOK ==
    SmallProblem =>
        \A l \in 1..Len(levels) : LET cs == Con(l) IN
            \A i \in 1..Len(cs) : \A x \in Grid(nvars), y \in -1..1 :
                LET c == cs[i] p == Point2(x, [j \in 1..nvars |-> y]) a == ActiveSetOf(c, p) IN
                \A r \in 1..NumRows(c) :
                    LET v == Val2(c, r, p) viol == ViolationOf(c, r, p) sat == GeB(v, LowerOf(c, r)) /\ LeB(v, UpperOf(c, r)) IN
                    /\ sat = (viol = Zero2)
                    /\ ~GeB(viol, 0) => a[r] \in {LOWER, EQ, UNDEF}
                    /\ ~LeB(viol, 0) => a[r] \in {UPPER, EQ, UNDEF}
                    /\ a[r] = INACTIVE => sat /\ ~LeB(v, LowerOf(c, r)) /\ ~GeB(v, UpperOf(c, r))
                    /\ a[r] = UNDEF <=> c.bnd = "LU" /\ c.L[r] > c.U[r]
\* a guess always has the size of the task; guesses of equalities are equalities by default
GuessOK == status = "formed" /\ guessing => \A t \in Pushed : Len(guess[t]) = NumRows(data[t])

(* Units of measurement. None of the observations depends on them: if the   *)
(* bounds are expressed in 2^s and variable i in 2^(s - d[i]), then the     *)
(* rows of the constraints are scaled by 2^d[i] (unweighted constraints on  *)
(* variables have no rows to scale), and so on. The harness converts.       *)
Units ==
    [s |-> IF "log" \in Ops THEN 0 ELSE RandOf(<<0, 0, -20, -33, 12>>, seed, 7100),
     d |-> [i \in 1..MaxVars |-> IF Ops \cap {"log", "solve"} # {} \/ \E t \in Tasks : FamOf(kinds[t]) = "I" THEN 0 ELSE RandInt(seed, 7100 + i, -9, 9)]]

Emit == Step = MaxOps => EmitCase([machine |-> "hierarchy", seed |-> seed, units |-> Units, steps |-> log])
=============================================================================
