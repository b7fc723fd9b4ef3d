------------------------------- MODULE Stance -------------------------------
(* Histories of the stance machine: shifts of time and of stances,          *)
(* previews, new parameters.                                                *)
EXTENDS StanceOps
CONSTANTS SeedLo, SeedHi, MaxOps, Exhaustive, MaxSteps, MaxDur, MaxShift
VARIABLES seed, p, f, k, log, last
vars == <<seed, p, f, k, log, last>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 40 * Step + i, lo, hi)

RandPar(i) == [first |-> RandOf(<<DS, DS, LSS, RSS>>, seed, 40 * Step + i),
               fss |-> RandOf(<<LSS, RSS, LSS, RSS, LSS, RSS, UNDEF>>, seed, 40 * Step + i + 1),
               n |-> RandOf(<<0, 2, 2, 3, 4, 5>>, seed, 40 * Step + i + 2) % (MaxSteps + 1),
               ss |-> R(i + 3, 1, MaxDur), tds |-> R(i + 4, 1, MaxDur), fd |-> R(i + 5, 1, MaxDur), ld |-> R(i + 6, 1, 2 * MaxDur)]
\* zero durations: the stance is passed at once
RandPar0(i) == LET a == RandPar(i) IN
    CASE R(i + 8, 1, 6) = 1 -> [a EXCEPT !.tds = 0] [] R(i + 8, 1, 6) = 2 -> [a EXCEPT !.fd = 0] [] OTHER -> a
Refused(i) == LET a == RandPar(i) IN
    CASE R(i + 9, 1, 4) = 1 -> [a EXCEPT !.n = 1]
      [] R(i + 9, 1, 4) = 2 -> [a EXCEPT !.first = TDS]
      [] R(i + 9, 1, 4) = 3 -> [a EXCEPT !.first = UNDEF]
      [] OTHER -> [a EXCEPT !.first = DS, !.fss = RandOf(<<DS, TDS>>, seed, 40 * Step + i + 10)]
AllPar == [first : {DS, LSS, RSS}, fss : {LSS, RSS, UNDEF}, n : {0, 2, 3}, ss : {2}, tds : {1, 2}, fd : {1}, ld : {3}]

Short(s) == [type |-> s.type, sub |-> s.sub, pss |-> s.pss, pnt |-> s.pnt]
State(g) == [type |-> g.st.type, sub |-> g.st.sub, pss |-> g.st.pss, pnt |-> g.st.pnt, dur |-> g.st.dur,
             time |-> g.time, left |-> g.left, tds |-> g.tds]

Init == /\ seed \in SeedLo..SeedHi
        /\ log = <<>>
        /\ p = <<>> /\ f = <<>> /\ k = 0 /\ last = <<>>

Set(par, how) ==
    LET bad == ~Supported(par) IN
    /\ p' = par
    /\ f' = IF bad THEN <<>> ELSE Start(par)
    /\ k' = 0
    /\ last' = <<>>
    /\ log' = Append(log, [op |-> "set", how |-> how, par |-> par,
            exp |-> IF bad THEN [throws |-> TRUE] ELSE State(Start(par))])
Begin == IF Exhaustive THEN \E par \in AllPar : Set(par, "ctor")
         ELSE Set(IF R(1, 1, 12) = 1 THEN Refused(2) ELSE RandPar0(2), RandOf(<<"ctor", "set">>, seed, 40 * Step))

\* index of the stance reached after the time t, and the number of shifts
RECURSIVE Passed(_, _, _)
Passed(g, t, c) == IF t = 0 \/ g.time + t < g.st.dur THEN c ELSE Passed(Shift(p, g), t - (g.st.dur - g.time), c + 1)
Time(t) ==
    LET g == ShiftTime(p, f, t) IN
    /\ f' = g
    /\ k' = k + Passed(f, t, 0)
    /\ last' = [kind |-> "time", t |-> t, f0 |-> f, k0 |-> k]
    /\ log' = Append(log, [op |-> "time", t |-> t, exp |-> State(g)])
    /\ UNCHANGED p
Jump ==
    LET g == Shift(p, f) IN
    /\ f' = g
    /\ k' = k + 1
    /\ last' = <<>>
    /\ log' = Append(log, [op |-> "jump", exp |-> State(g)])
    /\ UNCHANGED p
NextStance ==
    LET g == Shift(p, f) IN
    /\ last' = <<>>
    /\ log' = Append(log, [op |-> "next", exp |-> [st |-> g.st, state |-> State(f)]])
    /\ UNCHANGED <<p, f, k>>
Preview(d) ==
    LET l == PreviewFrom(p, f, d) IN
    /\ last' = [kind |-> "preview", d |-> d, l |-> l]
    /\ log' = Append(log, [op |-> "preview", t |-> d, exp |-> [l |-> [i \in 1..Len(l) |-> [st |-> Short(l[i].st), dur |-> l[i].dur, total |-> l[i].total]], state |-> State(f)]])
    /\ UNCHANGED <<p, f, k>>
Support ==
    LET t == R(5, 0, 4) IN
    /\ last' = <<>>
    /\ log' = Append(log, [op |-> "support", t |-> t,
           exp |-> IF t \in {LSS, RSS} THEN [foot |-> IF t = LSS THEN "L" ELSE "R"] ELSE [throws |-> TRUE]])
    /\ UNCHANGED <<p, f, k>>

Sampled == CASE R(0, 1, 20) <= 8 -> Time(R(1, 0, MaxShift))
             [] R(0, 1, 20) <= 10 -> Jump
             [] R(0, 1, 20) <= 12 -> NextStance
             [] R(0, 1, 20) <= 18 -> Preview(R(2, 0, 4 * MaxShift))
             [] R(0, 1, 20) = 19 -> Support
             [] OTHER -> Begin
All == (\E t \in {1, 2, 3, 5} : Time(t)) \/ Jump \/ NextStance \/ (\E d \in {0, 1, 4, 9} : Preview(d))
Next == /\ Step < MaxOps
        /\ IF f = <<>> THEN Begin ELSE IF Exhaustive THEN All ELSE Sampled
        /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

\* the machine performs the walk
WalkOK == f # <<>> => f.st = Stance(p, k) /\ f.left = Left(p, k)
\* a stance is never outlived; time which passes is never lost
RECURSIVE SumDur(_, _)
SumDur(a, b) == IF a >= b THEN 0 ELSE Dur(p, a) + SumDur(a + 1, b)
TimeOK == f # <<>> => /\ f.time <= f.st.dur
                      /\ (f.time = f.st.dur => f.time = 0)
                      /\ (last # <<>> /\ last.kind = "time") =>
                            /\ SumDur(last.k0, k) + f.time = last.f0.time + last.t
                            \* a shift which ends at the beginning of a TDS reports it
                            /\ (last.t > 0 => f.tds = (f.st.type = TDS /\ f.time = 0))
\* the preview is the walk, it covers the requested time unless the walk is over
PreviewOK == (last # <<>> /\ last.kind = "preview") =>
    LET l == last.l
        got == SumSeq([i \in 1..Len(l) |-> l[i].dur])
        over == \E j \in k..(k + Len(l)) : Over(p, j) /\ (j = k + Len(l))
    IN /\ \A i \in 1..Len(l) : l[i].st = Stance(p, k + i - 1)
       /\ got <= last.d
       /\ (got < last.d => Over(p, k + Len(l)) /\ SumDur(k, k + Len(l) + 1) - f.time < last.d)
       /\ (got = last.d /\ l # <<>>) => l[Len(l)].st.type # TDS
       \* time spent in the stances agrees with the passing of time
       /\ \A i \in 1..Len(l) : i > 1 =>
              LET t == SumSeq([j \in 1..(i - 1) |-> l[j].dur]) IN l[i - 1].dur > 0 /\ l[i].dur > 0 => ShiftTime(p, f, t).st = l[i].st
\* support feet alternate
AlternateOK == f # <<>> /\ f.st.type \in {LSS, RSS} /\ k > 0 => f.st.type = Opp(f.st.pss)
Emit == Step = MaxOps => EmitCase([machine |-> "stance", seed |-> seed, steps |-> log])
=============================================================================
