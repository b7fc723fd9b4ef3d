---------------------------- MODULE GenericTasks ----------------------------
(* The tasks supplied with the core: zeroing of (selected) variables with a *)
(* gain, and the infeasible inequality; re-formed while the structure of    *)
(* the solution, the gain and the selection change.                         *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps
VARIABLES seed, type, gain, varid, sel, parts, log
vars == <<seed, type, gain, varid, sel, parts, log>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 60 * Step + i, lo, hi)
Rec(e) == log' = Append(log, e)

N == SumSeq(parts)          \* parts "p1", "p2", "p3" with these lengths
PartName(i) == <<"p1", "p2", "p3">>[i]
OffOf(i) == SumSeq([k \in 1..(i - 1) |-> parts[k]])
Zeroed ==   \* 0-based indices of the variables which are driven to zero
    CASE type = "zero" -> IF varid = 0 THEN [i \in 1..N |-> i - 1] ELSE [i \in 1..parts[varid] |-> OffOf(varid) + i - 1]
      [] type = "selected" -> sel

Init == /\ seed \in SeedLo..SeedHi
        /\ type = RandOf(<<"zero", "zero", "selected", "infeasible">>, seed, 1)
        /\ gain = RandInt(seed, 2, 1, 4)
        /\ varid = RandInt(seed, 3, 0, 3)
        /\ parts = [i \in 1..3 |-> RandInt(seed, 5 + i, 1, 3)]
        /\ sel = [i \in 1..RandInt(seed, 10, 1, 3) |-> RandInt(seed, 11 + i, 0, 2)]
        /\ log = <<[op |-> "new", type |-> type, gain |-> gain, varid |-> (IF varid = 0 THEN "" ELSE PartName(varid)), sel |-> sel,
                    exp |-> [gain |-> gain]]>>

SetGain == LET g == R(1, 0, 5) IN
    /\ gain' = g /\ Rec([op |-> "setgain", gain |-> g, exp |-> [gain |-> g]]) /\ UNCHANGED <<seed, type, varid, sel, parts>>
SetVar == LET v == R(2, 0, 3) IN
    /\ type = "zero"
    /\ varid' = v /\ Rec([op |-> "setvarid", id |-> IF v = 0 THEN "" ELSE PartName(v), exp |-> [ok |-> TRUE]])
    /\ UNCHANGED <<seed, type, gain, sel, parts>>
SetParts == /\ parts' = [i \in 1..3 |-> R(3 + i, 1, 3)]
            /\ Rec([op |-> "setparts", parts |-> parts', exp |-> [ok |-> TRUE]])
            /\ UNCHANGED <<seed, type, gain, varid, sel>>
\* the formed task: rows A x (in) bounds, and its value at a point
TaskRows(n) == IF type = "infeasible" THEN <<[j \in 1..N |-> 1]>>
           ELSE [i \in 1..Len(Zeroed) |-> [j \in 1..N |-> IF j = Zeroed[i] + 1 THEN gain ELSE 0]]
Form ==
    /\ Rec([op |-> "form", parts |-> parts,
            exp |-> IF type = "infeasible" THEN [A |-> TaskRows(N), lb |-> <<1>>, ub |-> <<-1>>, eq |-> FALSE]
                    ELSE [A |-> TaskRows(N), lb |-> ZeroV(Len(Zeroed)), ub |-> ZeroV(Len(Zeroed)), eq |-> TRUE]])
    /\ UNCHANGED <<seed, type, gain, varid, sel, parts>>
Next == /\ Step < MaxOps
        /\ LET o == R(0, 0, 9) IN
           IF o < 5 \/ Step = MaxOps - 1 THEN Form
           ELSE IF o < 7 THEN SetGain
           ELSE IF o < 8 /\ type = "zero" THEN SetVar
           ELSE SetParts
Spec == Init /\ [][Next]_vars
\* the task is satisfied only by points whose selected variables vanish (for a nonzero gain)
ZeroOK == type # "infeasible" /\ gain # 0 /\ N <= 5 =>
    \A x \in [1..N -> {0, 1}] : (\A r \in 1..Len(TaskRows(N)) : Dot(TaskRows(N)[r], x) = 0) <=> (\A i \in 1..Len(Zeroed) : x[Zeroed[i] + 1] = 0)
Emit == Step = MaxOps => EmitCase([machine |-> "gtask", seed |-> seed, steps |-> log])
=============================================================================
