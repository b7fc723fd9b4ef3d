--------------------------- MODULE SolutionParts ---------------------------
(* Structure of a solution: named parts, their locations, initialization of *)
(* solutions and of guesses from older solutions.                           *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps, Ids
VARIABLES seed, struct, sols, log
vars == <<seed, struct, sols, log>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 50 * Step + i, lo, hi)

\* a structure is a sequence of [id, len]
NVars(st) == SumSeq([i \in 1..Len(st) |-> st[i].len])
Off(st, i) == SumSeq([k \in 1..(i - 1) |-> st[k].len])
HasPart(st, id) == \E i \in 1..Len(st) : st[i].id = id
Ix(st, id) == CHOOSE i \in 1..Len(st) : st[i].id = id
Loc(st, id) == IF HasPart(st, id) THEN [off |-> Off(st, Ix(st, id)), len |-> st[Ix(st, id)].len] ELSE [off |-> 0, len |-> 0]
Part(sol, id) == LET l == Loc(sol.st, id) IN Seg(sol.x, l.off + 1, l.len)
AnyVal == 77777777    \* value that is not determined; the comparison skips it

Obs(sol) == [n |-> NVars(sol.st), nonempty |-> sol.st # <<>>,
             locs |-> [i \in 1..Len(SetToSeq(Ids)) |-> Loc(sol.st, SetToSeq(Ids)[i])],
             x |-> sol.x, size |-> Len(sol.x)]
Rec(e) == log' = Append(log, e)
IdSeq == SetToSeq(Ids)

Init == /\ seed \in SeedLo..SeedHi
        /\ struct = <<>>
        /\ sols = [k \in 1..2 |-> [st |-> <<>>, x |-> <<>>]]
        /\ log = <<>>

AddPart ==
    \E id \in ChooseFrom(FALSE, {i \in Ids : ~HasPart(struct, i)}, seed, 50 * Step + 1) :
        LET len == R(2, 0, 3) IN
        /\ struct' = Append(struct, [id |-> id, len |-> len])
        /\ Rec([op |-> "addpart", id |-> id, len |-> len, ids |-> IdSeq,
                exp |-> LET st == Append(struct, [id |-> id, len |-> len]) IN
                        [n |-> NVars(st), nonempty |-> TRUE, locs |-> [i \in 1..Len(IdSeq) |-> Loc(st, IdSeq[i])]]])
        /\ UNCHANGED <<seed, sols>>
ResetStruct ==
    /\ struct' = <<>>
    /\ Rec([op |-> "resetstruct", ids |-> IdSeq, exp |-> [n |-> 0, nonempty |-> FALSE]])
    /\ UNCHANGED <<seed, sols>>

SolOp(k, new, e) == /\ sols' = [sols EXCEPT ![k] = new]
                    /\ Rec([e EXCEPT !.exp = Obs(new)])
                    /\ UNCHANGED <<seed, struct>>
InitSol == LET k == R(1, 1, 2) IN
    SolOp(k, [st |-> struct, x |-> VConst(NVars(struct), AnyVal)], [op |-> "init", k |-> k, ids |-> IdSeq, exp |-> 0])
InitVal == LET k == R(1, 1, 2) v == R(2, -2, 2) IN
    SolOp(k, [st |-> struct, x |-> VConst(NVars(struct), v)], [op |-> "initval", k |-> k, v |-> v, ids |-> IdSeq, exp |-> 0])
\* a guess made from the other solution: parts of the same name and size are copied, the others are zero
InitOld == LET k == R(1, 1, 2) o == sols[3 - k]
               piece(p) == IF Loc(o.st, p.id).len = p.len THEN Part(o, p.id) ELSE ZeroV(p.len) IN
    SolOp(k, [st |-> struct, x |-> Flat([i \in 1..Len(struct) |-> piece(struct[i])])],
          [op |-> "initold", k |-> k, via |-> R(3, 0, 1), ids |-> IdSeq, exp |-> 0])
SetPart == LET k == R(1, 1, 2) s == sols[k] IN
    \E id \in ChooseFrom(FALSE, Ids, seed, 50 * Step + 4) :
        LET l == Loc(s.st, id)
            v == [i \in 1..l.len |-> R(10 + i, -9, 9)]
        IN SolOp(k, [s EXCEPT !.x = [i \in 1..Len(@) |-> IF i > l.off /\ i <= l.off + l.len THEN v[i - l.off] ELSE @[i]]],
                 [op |-> "setpart", k |-> k, id |-> id, v |-> v, ids |-> IdSeq, exp |-> 0])
GetPart == LET k == R(1, 1, 2) s == sols[k] IN
    \E id \in ChooseFrom(FALSE, Ids, seed, 50 * Step + 5) :
        /\ Rec([op |-> "getpart", k |-> k, id |-> id, exp |-> [x |-> Part(s, id)]])
        /\ UNCHANGED <<seed, struct, sols>>
GetData == LET k == R(1, 1, 2) s == sols[k] o == R(2, 0, Len(s.x) + 1) l == R(3, 0, 3) IN
    /\ Rec([op |-> "getdata", k |-> k, off |-> o, len |-> l,
            exp |-> IF o + l <= Len(s.x) THEN [x |-> Seg(s.x, o + 1, l)] ELSE [throws |-> TRUE]])
    /\ UNCHANGED <<seed, struct, sols>>
MatPart == LET M == RandM(seed, 50 * Step + 20, 2, NVars(struct), 9) IN
    \E id \in ChooseFrom(FALSE, Ids, seed, 50 * Step + 6) :
        LET l == Loc(struct, id) IN
        /\ Rec([op |-> "matpart", id |-> id, M |-> M, exp |-> [M |-> Block(M, 1, l.off + 1, 2, l.len), cols |-> l.len]])
        /\ UNCHANGED <<seed, struct, sols>>

OpNames == {"addpart", "resetstruct", "init", "initval", "initold", "setpart", "getpart", "getdata", "matpart"}
EnabledOps == {o \in OpNames : CASE o = "addpart" -> Len(struct) < Cardinality(Ids)
                                 [] o = "resetstruct" -> Len(struct) > 1
                                 [] OTHER -> Len(struct) > 0}
Next == /\ Step < MaxOps
        /\ \E o \in ChooseFrom(FALSE, IF Step < 3 THEN {"addpart"} ELSE EnabledOps, seed, 50 * Step) :
            CASE o = "addpart" -> AddPart [] o = "resetstruct" -> ResetStruct [] o = "init" -> InitSol
              [] o = "initval" -> InitVal [] o = "initold" -> InitOld [] o = "setpart" -> SetPart
              [] o = "getpart" -> GetPart [] o = "getdata" -> GetData [] o = "matpart" -> MatPart
Spec == Init /\ [][Next]_vars

\* the parts partition the variables
PartsOK == \A k \in 1..2 : LET s == sols[k] IN
    /\ Len(s.x) = NVars(s.st)
    /\ Flat([i \in 1..Len(s.st) |-> Part(s, s.st[i].id)]) = s.x
Emit == Step = MaxOps => EmitCase([machine |-> "solution", seed |-> seed, steps |-> log])
=============================================================================
