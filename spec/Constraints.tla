---------------------------- MODULE Constraints ----------------------------
(* The meaning of the 20 kinds of constraints and of their representations. *)
(*                                                                          *)
(* A constraint is a record                                                 *)
(*   fam  : "I" | "GI" | "A" | "AS"      what multiplies the variables      *)
(*   bnd  : "LU" | "L" | "U" | "B" | "B0" which sides are bounded           *)
(*   n    : number of variables                                             *)
(*   A    : matrix (A: m x n, AS: m x w)  off : first column of S (0-based) *)
(*   I    : indices (0-based)             G   : gains                       *)
(*   L, U, B : bounds                                                       *)
EXTENDS Mat

Fams == <<"I", "GI", "A", "AS">>
Bnds == <<"LU", "L", "U", "B", "B0">>
KindOrder == <<"ILU","IL","IU","IB","IB0","GILU","GIL","GIU","GIB","GIB0",
               "ALU","AL","AU","AB","AB0","ASLU","ASL","ASU","ASB","ASB0">>
FamOf(k) == Fams[((k - 1) \div 5) + 1]
BndOf(k) == Bnds[((k - 1) % 5) + 1]

IsEquality(c) == c.bnd \in {"B", "B0"}
IsSimple(c)   == c.fam \in {"I", "GI"}
IsTwoSided(c) == c.bnd = "LU"
NumRows(c)    == IF IsSimple(c) THEN Len(c.I) ELSE Len(c.A)

\* --- the defining semantics: rows(x) compared with the bounds -------------
\* value of row r at the point x, straight from the definition of the family
RowVal(c, r, x) ==
    CASE c.fam = "I"  -> x[c.I[r] + 1]
      [] c.fam = "GI" -> c.G[r] * x[c.I[r] + 1]
      [] c.fam = "A"  -> Dot(c.A[r], x)
      [] c.fam = "AS" -> Dot(c.A[r], Seg(x, c.off + 1, Len(c.A[r])))
LowerOf(c, r) == CASE c.bnd \in {"LU", "L"} -> c.L[r] [] c.bnd = "B" -> c.B[r] [] c.bnd = "B0" -> 0 [] OTHER -> -INF
UpperOf(c, r) == CASE c.bnd \in {"LU", "U"} -> c.U[r] [] c.bnd = "B" -> c.B[r] [] c.bnd = "B0" -> 0 [] OTHER -> INF
Satisfied(c, x) == \A r \in 1..NumRows(c) : LowerOf(c, r) <= RowVal(c, r, x) /\ RowVal(c, r, x) <= UpperOf(c, r)

\* --- representations ------------------------------------------------------
UnitRow(n, i, v) == [j \in 1..n |-> IF j = i THEN v ELSE 0]
Body(c) ==
    CASE c.fam = "I"  -> [r \in 1..NumRows(c) |-> UnitRow(c.n, c.I[r] + 1, 1)]
      [] c.fam = "GI" -> [r \in 1..NumRows(c) |-> UnitRow(c.n, c.I[r] + 1, c.G[r])]
      [] c.fam = "A"  -> c.A
      [] c.fam = "AS" -> [r \in 1..NumRows(c) |->
                            [j \in 1..c.n |-> IF j > c.off /\ j <= c.off + Len(c.A[r]) THEN c.A[r][j - c.off] ELSE 0]]
LowerV(c) == [r \in 1..NumRows(c) |-> LowerOf(c, r)]
UpperV(c) == [r \in 1..NumRows(c) |-> UpperOf(c, r)]

\* two-sided general form lb <= A x <= ub
AsALU(c) == [A |-> Body(c), lb |-> LowerV(c), ub |-> UpperV(c)]
\* one-sided general form lb <= A x: lower rows first, then negated upper rows
AsAL(c) == [A  |-> (IF c.bnd \in {"LU","L"} THEN Body(c) ELSE <<>>) \o (IF c.bnd \in {"LU","U"} THEN MNeg(Body(c)) ELSE <<>>),
            lb |-> (IF c.bnd \in {"LU","L"} THEN c.L ELSE <<>>) \o (IF c.bnd \in {"LU","U"} THEN VNeg(c.U) ELSE <<>>)]
\* equality form A x = b
AsAB(c) == [A |-> Body(c), b |-> LowerV(c)]
\* bounds on variables lb <= x[I] <= ub (unweighted simple constraints only)
AsILU(c) == [I |-> c.I, lb |-> LowerV(c), ub |-> UpperV(c)]

SatALU(f, x) == \A r \in 1..Len(f.A) : f.lb[r] <= Dot(f.A[r], x) /\ Dot(f.A[r], x) <= f.ub[r]
SatAL(f, x)  == \A r \in 1..Len(f.A) : f.lb[r] <= Dot(f.A[r], x)
SatAB(f, x)  == \A r \in 1..Len(f.A) : Dot(f.A[r], x) = f.b[r]
SatILU(f, x) == \A r \in 1..Len(f.I) : f.lb[r] <= x[f.I[r] + 1] /\ x[f.I[r] + 1] <= f.ub[r]

\* --- least squares --------------------------------------------------------
ATA(c) == MMN(TrN(Body(c), c.n), Body(c), c.n)
ATb(c) == LET BT == TrN(Body(c), c.n) IN [j \in 1..c.n |-> Dot(BT[j], LowerV(c))]

\* --- points -----------------------------------------------------------------
\* A point is x + e*y with an infinitesimal e > 0, so that being exactly on a
\* bound, and beyond or before it by however little are told apart.
Point2(x, y) == [x |-> x, y |-> y]
\* value of row r: a number and a multiple of e
Val2(c, r, p) == <<RowVal(c, r, p.x), RowVal(c, r, p.y)>>
LeB(v, b) == v[1] < b \/ (v[1] = b /\ v[2] <= 0)
GeB(v, b) == v[1] > b \/ (v[1] = b /\ v[2] >= 0)
\* bounds moved such that the point b takes the place of the origin
Around(c, b) ==
    LET add(v) == [r \in 1..Len(v) |-> v[r] + RowVal(c, r, b)] IN [c EXCEPT !.L = add(@), !.U = add(@), !.B = add(@)]

\* --- active set -----------------------------------------------------------
UNDEF == 0   INACTIVE == 1   LOWER == 2   UPPER == 3   EQ == 4
ActivationOf(c, r, p) ==
    LET v == Val2(c, r, p) IN
    CASE IsEquality(c) -> EQ
      [] c.bnd = "LU" -> IF c.L[r] > c.U[r] THEN UNDEF
                         ELSE IF c.L[r] = c.U[r] THEN EQ
                         ELSE IF LeB(v, c.L[r]) THEN LOWER
                         ELSE IF GeB(v, c.U[r]) THEN UPPER ELSE INACTIVE
      [] c.bnd = "L"  -> IF LeB(v, c.L[r]) THEN LOWER ELSE INACTIVE
      [] c.bnd = "U"  -> IF GeB(v, c.U[r]) THEN UPPER ELSE INACTIVE
ActiveSetOf(c, p) == [r \in 1..NumRows(c) |-> ActivationOf(c, r, p)]

\* --- violations: signed distance to the admissible set, per row -----------
Minus(v, b) == <<v[1] - b, v[2]>>
Zero2 == <<0, 0>>
LowerDiff(c, r, p) == IF c.bnd = "U" THEN Zero2 ELSE Minus(Val2(c, r, p), LowerOf(c, r))
UpperDiff(c, r, p) == IF c.bnd = "L" THEN Zero2 ELSE Minus(Val2(c, r, p), UpperOf(c, r))
ViolationOf(c, r, p) ==
    LET l == LowerDiff(c, r, p) u == UpperDiff(c, r, p) IN IF ~GeB(l, 0) THEN l ELSE IF ~LeB(u, 0) THEN u ELSE Zero2
\* for the replay e is 2^-30
E30(v) == [v |-> v[1], eps |-> v[2], k |-> 30]
ViolationsOf(c, p) ==
    [v |-> [r \in 1..NumRows(c) |-> E30(ViolationOf(c, r, p))],
     lo |-> [r \in 1..NumRows(c) |-> E30(LowerDiff(c, r, p))],
     up |-> [r \in 1..NumRows(c) |-> E30(UpperDiff(c, r, p))]]

\* --- random data ----------------------------------------------------------
\* kind k, n variables, m rows, consistent bounds unless inconsistent = TRUE
GenConstraint(k, n, m, s, i, inconsistent) ==
    LET fam == FamOf(k)
        bnd == BndOf(k)
        w   == RandInt(s, i + 1, 1, n)
        off == RandInt(s, i + 2, 0, n - w)
        lo  == [r \in 1..m |-> RandInt(s, i + 40 + r, -4, 4)]
        gap == [r \in 1..m |-> RandInt(s, i + 60 + r, IF inconsistent THEN -2 ELSE 0, 4)]
    IN [fam |-> fam, bnd |-> bnd, n |-> n,
        A   |-> CASE fam = "A" -> RandM(s, i + 100, m, n, 3) [] fam = "AS" -> RandM(s, i + 200, m, w, 3) [] OTHER -> <<>>,
        w   |-> IF fam = "AS" THEN w ELSE n,
        off |-> IF fam = "AS" THEN off ELSE 0,
        I   |-> IF fam \in {"I", "GI"} THEN [r \in 1..m |-> RandInt(s, i + 300 + r, 0, n - 1)] ELSE <<>>,
        G   |-> IF fam = "GI" THEN [r \in 1..m |-> RandInt(s, i + 320 + r, -3, 3)] ELSE <<>>,
        L   |-> IF bnd \in {"LU", "L"} THEN lo ELSE <<>>,
        U   |-> IF bnd \in {"LU", "U"} THEN [r \in 1..m |-> lo[r] + gap[r]] ELSE <<>>,
        B   |-> IF bnd = "B" THEN lo ELSE <<>>]

\* --- data which do not fit together ----------------------------------------
Flaws(c) == (IF c.bnd \in {"LU", "L"} THEN {"L"} ELSE {}) \cup (IF c.bnd \in {"LU", "U"} THEN {"U"} ELSE {})
            \cup (IF c.bnd = "B" THEN {"B"} ELSE {}) \cup (IF c.fam = "GI" THEN {"G"} ELSE {})
            \cup (IF c.fam \in {"A", "AS"} THEN {"cols"} ELSE {})
Longer(v, more) == IF more \/ v = <<>> THEN Append(v, 1) ELSE SubSeq(v, 1, Len(v) - 1)
Flawed(c, f, more) ==
    CASE f = "L" -> [c EXCEPT !.L = Longer(@, more)]
      [] f = "U" -> [c EXCEPT !.U = Longer(@, more)]
      [] f = "B" -> [c EXCEPT !.B = Longer(@, more)]
      [] f = "G" -> [c EXCEPT !.G = Longer(@, more)]
      [] f = "cols" /\ c.fam = "A" ->
            LET w == IF more \/ c.n = 1 THEN c.n + 1 ELSE c.n - 1 IN
            [c EXCEPT !.w = w, !.A = [r \in 1..Len(c.A) |-> [j \in 1..w |-> IF j <= c.n THEN c.A[r][j] ELSE 1]]]
      [] OTHER -> [c EXCEPT !.off = c.n - c.w + 1]
=============================================================================
