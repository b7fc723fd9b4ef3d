----------------------------- MODULE SolverLife -----------------------------
(* The protocol between a user and any solver built on the solver classes:  *)
(* order of the stages, delivery of guesses, status policy, active set.     *)
EXTENDS Num
CONSTANTS SeedLo, SeedHi, MaxOps, Exhaustive
VARIABLES seed, crash, asqp, usable, log
vars == <<seed, crash, asqp, usable, log>>
Step == Len(log)
P(S, i) == ChooseFrom(Exhaustive, S, seed, 40 * Step + i)
Rec(e) == log' = Append(log, e)

\* the overloads of solve(): which guesses are given, is the active set returned
Overloads == {[sg |-> FALSE, ag |-> FALSE, ret |-> FALSE], [sg |-> TRUE, ag |-> FALSE, ret |-> FALSE],
              [sg |-> FALSE, ag |-> TRUE, ret |-> TRUE], [sg |-> FALSE, ag |-> TRUE, ret |-> FALSE],
              [sg |-> FALSE, ag |-> FALSE, ret |-> TRUE], [sg |-> TRUE, ag |-> TRUE, ret |-> TRUE],
              [sg |-> TRUE, ag |-> TRUE, ret |-> FALSE], [sg |-> TRUE, ag |-> FALSE, ret |-> TRUE]}

Init == /\ seed \in SeedLo..SeedHi
        /\ crash = TRUE /\ asqp = TRUE /\ usable = TRUE /\ log = <<>>

\* parameters through setParameters(): the solver is reset
SetPar == \E c \in P(BOOLEAN, 1), a \in P({TRUE, TRUE, FALSE}, 2) :
    /\ crash' = c /\ asqp' = a
    /\ Rec([op |-> "setpar", crash |-> c, asqp |-> a, exp |-> [calls |-> <<"reset">>]])
    /\ UNCHANGED <<seed, usable>>

\* what the hierarchy looks like: levels and whether the last one is an objective
Shapes == {[levels |-> 1, eq |-> TRUE], [levels |-> 2, eq |-> TRUE], [levels |-> 2, eq |-> FALSE], [levels |-> 3, eq |-> TRUE]}
OKShape(sh, a) == a /\ sh.levels \in {1, 2} /\ sh.eq

Stages(o) == <<"initialize">> \o (IF o.ag THEN <<"activeset">> ELSE <<>>) \o (IF o.sg THEN <<"guess">> ELSE <<>>) \o <<"solve">>

Solve == \E o \in P(Overloads, 3), st \in P({0, 1, 1, 2, 3}, 4), sh \in P(Shapes, 5) :
    LET ok == OKShape(sh, asqp)
        good == st = 1
    IN /\ Rec([op |-> "solve", sg |-> o.sg, ag |-> o.ag, ret |-> o.ret, status |-> st, shape |-> sh, par |-> FALSE,
               exp |-> IF ~ok THEN [throws |-> TRUE, calls |-> <<>>]
                       ELSE IF crash /\ ~good THEN [throws |-> TRUE]
                       ELSE [status |-> st, calls |-> Stages(o) \o (IF o.ret THEN <<"getactiveset">> ELSE <<>>), gotas |-> o.ret]])
       /\ UNCHANGED <<seed, crash, asqp, usable>>
\* parameters given to solve(): take effect for this and for the following calls
SolvePar == \E c \in P(BOOLEAN, 6), st \in P({0, 1, 1, 2, 3}, 7), sh \in P(Shapes, 8), a \in P({TRUE, TRUE, FALSE}, 9) :
    LET ok == OKShape(sh, a) IN
    /\ crash' = c /\ asqp' = a
    /\ Rec([op |-> "solve", sg |-> FALSE, ag |-> FALSE, ret |-> FALSE, status |-> st, shape |-> sh, par |-> TRUE, crash |-> c, asqp |-> a,
            exp |-> IF ~ok \/ (c /\ st # 1) THEN [throws |-> TRUE]
                    ELSE [status |-> st, calls |-> <<"initialize", "solve">>, gotas |-> FALSE]])
    /\ UNCHANGED <<seed, usable>>
\* which calls the last failed attempt made is asked separately
LastCalls == \E dummy \in {0} :
    /\ Step > 0 /\ log[Step].op = "solve"
    /\ LET e == log[Step]
           ok == OKShape(e.shape, asqp)
       IN Rec([op |-> "lastcalls", exp |-> [calls |-> IF ~ok THEN <<>>
                  ELSE Stages([sg |-> e.sg, ag |-> e.ag]) \o (IF e.ret /\ ~(crash /\ e.status # 1) THEN <<"getactiveset">> ELSE <<>>)]])
    /\ UNCHANGED <<seed, crash, asqp, usable>>

Next == /\ Step < MaxOps
        /\ IF Exhaustive
           THEN CASE Step = 0 -> SetPar [] Step = 1 -> Solve [] OTHER -> LastCalls
           ELSE LET o == RandInt(seed, 40 * Step, 0, 9) IN
                IF Step > 0 /\ log[Step].op = "solve" THEN LastCalls
                ELSE IF o < 3 THEN SetPar ELSE IF o < 5 THEN SolvePar ELSE Solve
Spec == Init /\ [][Next]_vars
\* a failure is never silent in the strict mode, and never fatal in the tolerant one
StatusOK == \A i \in 1..Len(log) : log[i].op = "solve" /\ "throws" \notin DOMAIN log[i].exp => log[i].status = log[i].exp.status
Emit == Step = MaxOps => EmitCase([machine |-> "solver", seed |-> seed, steps |-> log])
=============================================================================
