------------------------------ MODULE StanceOps ------------------------------
(* The finite state machine which generates the sequence of stances of a    *)
(* walk (constant level: shared by the models of walking).                  *)
(*                                                                          *)
(* Walk(p, k) is the declarative definition: the k-th stance of the walk    *)
(* (k = 0, 1, ...).  Start(p) / Shift(p, f) / ShiftTime(p, f, t) is the     *)
(* machine; Stance.tla checks that it performs the walk.                    *)
EXTENDS Mat

DS == 1  LSS == 2  RSS == 3  TDS == 4  UNDEF == 0
FIRST == 1  MIDDLE == 2  LAST == 3
Opp(t) == IF t = LSS THEN RSS ELSE IF t = RSS THEN LSS ELSE UNDEF

\* p: [first, fss (first single support), n (number of steps), ss, tds, fd (first duration), ld (last duration)]
Supported(p) == /\ p.n # 1
                /\ p.first \in {DS, LSS, RSS}
                /\ p.first = DS => p.fss \in {LSS, RSS, UNDEF}
Steps(p) == IF p.first = DS /\ p.fss = UNDEF THEN 0 ELSE p.n

(* ------------------------------ the walk ------------------------------- *)
\* Foot(p, i): the support of the i-th single support, i = 1..Steps(p)
SSi(p, i) == LET one == IF p.first = DS THEN p.fss ELSE Opp(p.first) IN IF i % 2 = 1 THEN one ELSE Opp(one)
\* stances of the walk: first, then (TDS, SS) for each step, TDS, last DS, DS, DS, ...
\* without steps a walk which starts in DS stays in DS
Kind(p, k) ==
    LET n == Steps(p) IN
    IF k = 0 THEN p.first
    ELSE IF p.first = DS /\ n = 0 THEN DS
    ELSE IF k <= 2 * n THEN (IF k % 2 = 1 THEN TDS ELSE SSi(p, k \div 2))
    ELSE IF k = 2 * n + 1 THEN TDS
    ELSE DS
Dur(p, k) == IF k = 0 THEN p.fd ELSE CASE Kind(p, k) = DS -> p.ld [] Kind(p, k) = TDS -> p.tds [] OTHER -> p.ss
Sub(p, k) == IF k = 0 THEN FIRST
             ELSE IF Kind(p, k) = DS /\ Kind(p, k - 1) = TDS THEN LAST
             ELSE MIDDLE
\* the last stance which is not TDS (not DS / TDS) before the stance k
RECURSIVE PrevNonTDS(_, _)
PrevNonTDS(p, k) == IF k = 0 THEN UNDEF ELSE IF Kind(p, k - 1) # TDS THEN Kind(p, k - 1) ELSE PrevNonTDS(p, k - 1)
RECURSIVE PrevSS(_, _)
PrevSS(p, k) == IF k = 0 THEN (IF p.first = DS THEN Opp(p.fss) ELSE p.first)
                ELSE IF Kind(p, k - 1) \in {LSS, RSS} THEN Kind(p, k - 1) ELSE PrevSS(p, k - 1)
Over(p, k) == Kind(p, k) = DS /\ (Steps(p) = 0 \/ k > 0)        \* the walk is over: it stays in double support
Left(p, k) == LET n == Steps(p) IN
              n - Cardinality({j \in 1..k : Kind(p, j) \in {LSS, RSS}})
Stance(p, k) == [type |-> Kind(p, k), sub |-> Sub(p, k), pss |-> PrevSS(p, k), pnt |-> PrevNonTDS(p, k), dur |-> Dur(p, k)]

(* ----------------------------- the machine ----------------------------- *)
Start(p) == [st |-> [type |-> p.first, sub |-> FIRST, pss |-> IF p.first = DS THEN Opp(p.fss) ELSE p.first, pnt |-> UNDEF, dur |-> p.fd],
             time |-> 0, left |-> Steps(p), tds |-> FALSE]
Shift(p, f) ==
    LET s == f.st
        to(type, sub, left) ==
            [st |-> [type |-> type, sub |-> sub,
                     pss |-> IF s.type \in {LSS, RSS} THEN s.type ELSE s.pss,
                     pnt |-> IF s.type # TDS THEN s.type ELSE s.pnt,
                     dur |-> CASE type = DS -> p.ld [] type = TDS -> p.tds [] OTHER -> p.ss],
             time |-> 0, left |-> left, tds |-> type = TDS]
    IN CASE s.type \in {LSS, RSS} -> to(TDS, MIDDLE, f.left)
         [] s.type = TDS -> IF f.left = 0 THEN to(DS, LAST, 0) ELSE to(Opp(s.pss), MIDDLE, f.left - 1)
         [] OTHER -> IF f.left = 0 THEN to(DS, MIDDLE, 0) ELSE to(TDS, MIDDLE, f.left)
\* a stance is left as soon as its time is over
RECURSIVE ShiftTime(_, _, _)
ShiftTime(p, f, t) ==
    IF t = 0 THEN f
    ELSE IF f.time + t < f.st.dur THEN [f EXCEPT !.time = @ + t, !.tds = FALSE]
    ELSE ShiftTime(p, Shift(p, f), t - (f.st.dur - f.time))

(* ------------------------------- preview ------------------------------- *)
\* stances of the next d ms, with the time spent in each; a TDS at the end is
\* followed by the stance to which it leads; the final double support is left
\* out when it is too short.
PEntry(s, d, total) == [st |-> s, dur |-> d, total |-> total]
RECURSIVE PreviewFrom(_, _, _)
PreviewFrom(p, f, d) ==
    LET rest == f.st.dur - f.time IN
    IF d = 0 THEN <<>>
    ELSE IF d <= rest THEN
        <<PEntry(f.st, d, f.st.dur)>> \o
        (IF f.st.type = TDS THEN LET g == Shift(p, f).st IN <<PEntry(g, 0, 0)>> ELSE <<>>)
    ELSE IF f.left = 0 /\ f.st.type = DS THEN <<>>
    ELSE <<PEntry(f.st, rest, f.st.dur)>> \o PreviewFrom(p, Shift(p, f), d - rest)
=============================================================================
