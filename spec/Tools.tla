------------------------------- MODULE Tools -------------------------------
(* Helpers of linear algebra and basic data types: symmetric products,      *)
(* concatenation, removal and selection of rows and columns, block diagonal *)
(* matrices, pairs of left and right objects, locations, units of time.     *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps

ANY == 77777777
\* cur: a matrix modified by the operations; acc: a symmetric matrix, only the
\* lower part of which is meaningful; pair: a container of a left and a right object
VARIABLES seed, n, cur, acc, pair, log
vars == <<seed, n, cur, acc, pair, log>>
R(i, lo, hi) == RandInt(seed, 700 * n + i, lo, hi)
NewM(r, c, M) == [r |-> r, c |-> c, M |-> M]
RandMat(i, r, c) == NewM(r, c, RandM(seed, 700 * n + i, r, c, 6))
View(m) == [size |-> <<m.r, m.c>>, M |-> m.M]
Bad == [throws |-> TRUE]
Put(rec) == log' = Append(log, rec)

Init == /\ seed \in SeedLo..SeedHi /\ n = 0
        /\ cur = NewM(0, 0, <<>>) /\ acc = NewM(0, 0, <<>>) /\ pair = <<0, 0>>
        /\ log = <<[op |-> "setup", exp |-> View(cur)]>>

New ==
    /\ cur' = RandMat(10, R(1, 0, 4), R(2, 0, 4))
    /\ Put([op |-> "new", m |-> cur', exp |-> View(cur')])
    /\ UNCHANGED <<acc, pair>>

\* ------------------------------------------------- symmetric products
Hide(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> IF j > i THEN ANY ELSE M[i][j]]]
SymView(m) == [size |-> <<m.r, m.c>>, M |-> Hide(m.M)]
ATA(m) == MMN(TrN(m.M, m.c), m.M, m.c)
\* A^T A, placed at the given offset on the diagonal of a larger matrix of zeros
GetATA ==
    LET A == RandMat(10, R(1, 0, 4), R(2, 0, 4))
        place == R(3, 1, 2) = 1
        off == IF place THEN R(4, 0, 3) ELSE 0
        size == IF place THEN off + A.c + R(5, 0, 2) ELSE A.c
    IN /\ acc' = NewM(size, size, SetBlock(ZeroM(size, size), off + 1, off + 1, ATA(A)))
       /\ Put([op |-> "ata", A |-> A, place |-> place, off |-> off, size |-> size, exp |-> SymView(acc')])
       /\ UNCHANGED <<cur, pair>>
AddATA ==
    LET w == R(2, 0, acc.r) off == IF w = acc.r THEN 0 ELSE R(3, 0, acc.r - w)
        A == RandMat(10, R(1, 0, 4), w)
    IN /\ acc' = [acc EXCEPT !.M = MAdd(@, SetBlock(ZeroM(acc.r, acc.r), off + 1, off + 1, ATA(A)))]
       /\ Put([op |-> "addata", A |-> A, off |-> off, place |-> R(5, 1, 2) = 1 \/ w # acc.r, exp |-> SymView(acc')])
       /\ UNCHANGED <<cur, pair>>
\* the upper part becomes the mirrored lower part
Symmetric ==
    /\ Put([op |-> "sym", exp |-> View(acc)])
    /\ UNCHANGED <<cur, acc, pair>>

\* ------------------------------------------------- products and blocks
Transform ==
    LET rot == RandMat(10, 3, 3) t == RandV(seed, 700 * n + 30, 3, 6) X == RandMat(40, 3, R(1, 1, 4)) IN
    /\ Put([op |-> "transform", R |-> rot.M, t |-> t, X |-> X, fixed |-> R(2, 1, 2) = 1,
            exp |-> [res |-> [i \in 1..3 |-> [j \in 1..X.c |-> Dot(rot.M[i], [k \in 1..3 |-> X.M[k][j]]) + t[i]]]]])
    /\ UNCHANGED <<cur, acc, pair>>
\* the matrix of the cross product with a vector, its products with matrices (and vectors) on both sides
CrossM(v) == <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>
Cross ==
    LET v == RandV(seed, 700 * n + 30, 3, 6) X == RandMat(40, 3, R(1, 1, 4)) Y == RandMat(80, R(2, 1, 4), 3) IN
    /\ Put([op |-> "cross", v |-> v, X |-> X, Y |-> Y,
            exp |-> [mat |-> CrossM(v), same |-> TRUE, left |-> MMN(Y.M, CrossM(v), 3), right |-> MMN(CrossM(v), X.M, X.c)]])
    /\ UNCHANGED <<cur, acc, pair>>
\* an obstacle is moved to a pose (then it stands still), or takes a complete state
Obstacle ==
    LET s == [k \in 1..6 |-> RandV(seed, 700 * n + 30 + 8 * k, 3, 6)]
        still == R(1, 1, 2) = 1
        pose(k) == IF k \in {1, 4} \/ ~still THEN s[k] ELSE ZeroV(3)
    IN /\ Put([op |-> "obstacle", state |-> s, still |-> still, new |-> still /\ R(2, 1, 2) = 1, exp |-> [state |-> [k \in 1..6 |-> pose(k)]]])
       /\ UNCHANGED <<cur, acc, pair>>
Stack(a, b) == NewM(a.r + b.r, a.c + b.c,
    [i \in 1..a.r |-> a.M[i] \o ZeroV(b.c)] \o [i \in 1..b.r |-> ZeroV(a.c) \o b.M[i]])
RECURSIVE Diagonal(_)
Diagonal(ms) == IF ms = <<>> THEN NewM(0, 0, <<>>) ELSE Stack(Diagonal(SubSeq(ms, 1, Len(ms) - 1)), ms[Len(ms)])
DiagMats ==
    LET ms == [k \in 1..R(1, 0, 4) |-> RandMat(100 * k, R(2 * k, 0, 3), R(2 * k + 1, 0, 3))] IN
    /\ cur' = Diagonal(ms)
    /\ Put([op |-> "diagmats", ms |-> ms, exp |-> View(cur')])
    /\ UNCHANGED <<acc, pair>>
DiagCopies ==
    LET m == RandMat(20, R(2, 0, 3), R(3, 0, 3)) k == R(1, 0, 4) IN
    /\ cur' = Diagonal([i \in 1..k |-> m])
    /\ Put([op |-> "diagcopies", m |-> m, k |-> k, exp |-> View(cur')])
    /\ UNCHANGED <<acc, pair>>
\* each block becomes a block diagonal matrix with id copies of it
KronId ==
    LET br == R(1, 1, 3) bc == R(2, 1, 3) id == R(3, 1, 3)
        m == RandMat(20, br * R(4, 0, 3), bc * R(5, 0, 3) + (IF R(6, 1, 8) = 1 /\ bc > 1 THEN 1 ELSE 0))
        K == [a \in 1..m.r * id |-> [b \in 1..m.c * id |->
                LET bi == (a - 1) \div (br * id) ri == (a - 1) % (br * id) bj == (b - 1) \div (bc * id) rj == (b - 1) % (bc * id)
                IN IF ri \div br # rj \div bc THEN 0 ELSE m.M[(bi * br) + (ri % br) + 1][(bj * bc) + (rj % bc) + 1]]]
    IN /\ Put([op |-> "kronid", br |-> br, bc |-> bc, id |-> id, m |-> m, exp |-> IF m.c % bc # 0 THEN Bad ELSE View(NewM(m.r * id, m.c * id, K))])
       /\ UNCHANGED <<cur, acc, pair>>

\* ------------------------------------------- concatenation and removal
Empty(m) == m.r = 0 \/ m.c = 0
RECURSIVE Joined(_)
Joined(ms) == IF ms = <<>> THEN <<>> ELSE ms[1].M \o Joined(Tail(ms))
\* matrices without elements are ignored
VCatOf(ms) == LET full == SelectSeq(ms, LAMBDA m : ~Empty(m)) IN
    IF full = <<>> THEN NewM(0, 0, <<>>)
    ELSE IF \E i \in 1..Len(full) : full[i].c # full[1].c THEN [bad |-> TRUE]
    ELSE LET M == Joined(full) IN NewM(Len(M), full[1].c, M)
VertCat ==
    LET w == R(1, 1, 3)
        ms == [k \in 1..R(2, 0, 5) |-> LET kind == R(10 * k, 1, 8) IN
                RandMat(100 * k, IF kind \in 1..2 THEN 0 ELSE R(10 * k + 1, 1, 3), IF kind = 3 THEN 0 ELSE IF kind = 4 /\ R(3, 1, 3) = 1 THEN w + 1 ELSE w)]
        res == VCatOf(ms)
    IN /\ cur' = IF "bad" \in DOMAIN res THEN cur ELSE res
       /\ Put([op |-> "vcat", ms |-> ms, exp |-> IF "bad" \in DOMAIN res THEN Bad ELSE View(res)])
       /\ UNCHANGED <<acc, pair>>
RECURSIVE Side(_, _)
Side(ms, i) == IF ms = <<>> THEN <<>> ELSE ms[1].M[i] \o Side(Tail(ms), i)
RECURSIVE Width(_)
Width(ms) == IF ms = <<>> THEN 0 ELSE ms[1].c + Width(Tail(ms))
\* matrices without rows are ignored
HorCat ==
    LET h == R(1, 1, 3)
        ms == [k \in 1..R(2, 2, 3) |-> LET kind == R(10 * k, 1, 8) IN
                RandMat(100 * k, IF kind \in 1..2 THEN 0 ELSE IF kind = 4 /\ R(3, 1, 3) = 1 THEN h + 1 ELSE h, R(10 * k + 1, 0, 3))]
        full == SelectSeq(ms, LAMBDA m : m.r > 0)
        bad == full # <<>> /\ \E i \in 1..Len(full) : full[i].r # full[1].r
    IN /\ cur' = IF full = <<>> \/ bad THEN cur ELSE NewM(full[1].r, Width(full), [i \in 1..full[1].r |-> Side(full, i)])
       /\ Put([op |-> "hcat", ms |-> ms, keep |-> full = <<>> \/ bad,
               exp |-> IF bad THEN Bad ELSE IF full = <<>> THEN [size |-> <<0, ANY>>, M |-> <<>>] ELSE View(cur')])
       /\ UNCHANGED <<acc, pair>>
RemoveRow ==
    LET bad == R(1, 1, 5) = 1 \/ cur.r = 0
        k == IF bad THEN (IF R(3, 1, 3) = 1 THEN -R(2, 1, 2) ELSE cur.r + R(2, 0, 1)) ELSE R(2, 0, cur.r - 1) IN
    /\ cur' = IF bad THEN cur ELSE NewM(cur.r - 1, cur.c, [i \in 1..cur.r - 1 |-> cur.M[IF i > k THEN i + 1 ELSE i]])
    /\ Put([op |-> "rmrow", k |-> k, exp |-> IF bad THEN Bad ELSE View(cur')])
    /\ UNCHANGED <<acc, pair>>
RemoveColumn ==
    LET bad == R(1, 1, 5) = 1 \/ cur.c = 0
        k == IF bad THEN (IF R(3, 1, 3) = 1 THEN -R(2, 1, 2) ELSE cur.c + R(2, 0, 1)) ELSE R(2, 0, cur.c - 1) IN
    /\ cur' = IF bad THEN cur ELSE NewM(cur.r, cur.c - 1, [i \in 1..cur.r |-> [j \in 1..cur.c - 1 |-> cur.M[i][IF j > k THEN j + 1 ELSE j]]])
    /\ Put([op |-> "rmcol", k |-> k, exp |-> IF bad THEN Bad ELSE View(cur')])
    /\ UNCHANGED <<acc, pair>>
\* each step-th row starting from the first selected one
SelectRows ==
    LET step == R(1, 1, 3) first == R(2, 0, step - 1)
        num == IF cur.r > first THEN ((cur.r - first) + step - 1) \div step ELSE 0
        M == [i \in 1..num |-> cur.M[first + 1 + (i - 1) * step]]
        w == R(4, 1, 2) X == RandMat(20, cur.c, w)
    IN /\ Put([op |-> "selrows", step |-> step, first |-> first, X |-> X,
               exp |-> [rows |-> View(NewM(num, cur.c, M)), matrix |-> View(NewM(num, cur.c, M)), times |-> MMN(M, X.M, w)]])
       /\ UNCHANGED <<cur, acc, pair>>
Unset ==
    LET r == R(1, 0, 3) c == R(2, 0, 3) IN
    /\ Put([op |-> "unset", r |-> r, c |-> c, exp |-> View(NewM(r, c, [i \in 1..r |-> [j \in 1..c |-> [n |-> 0, d |-> 0]]]))])
    /\ UNCHANGED <<cur, acc, pair>>

\* ------------------------------------------------------ basic types
\* pairs: LEFT is 1, RIGHT is 2
PairOp ==
    LET how == R(1, 1, 6) side == R(2, 1, 2) v == R(3, -9, 9) other == <<R(4, -9, 9), R(5, -9, 9)>>
        bad == how = 6
        sideBad == IF R(2, 1, 2) = 1 THEN 0 ELSE 3
    IN /\ pair' = IF bad THEN pair ELSE [pair EXCEPT ![side] = IF how \in 4..5 THEN other[side] ELSE v]
       /\ Put([op |-> "pair", how |-> how, side |-> IF bad THEN sideBad ELSE side, v |-> v, other |-> other,
               exp |-> IF bad THEN Bad ELSE [left |-> pair'[1], right |-> pair'[2], at |-> pair', inverse |-> 3 - side]])
       /\ UNCHANGED <<cur, acc>>
LocationOp ==
    LET a == <<R(1, 0, 5), R(2, 0, 4)>> b == IF R(3, 1, 2) = 1 THEN a ELSE <<R(4, 0, 5), R(5, 0, 4)>> max == R(6, 0, 9) IN
    /\ Put([op |-> "location", a |-> a, b |-> b, max |-> max,
            exp |-> [front |-> a[1], end |-> a[1] + a[2], equal |-> a = b, differ |-> a # b, fits |-> a[1] + a[2] <= max,
                     empty |-> <<0, 0, 0>>]])
    /\ UNCHANGED <<cur, acc, pair>>
\* milliseconds, seconds; equality up to a tolerance
Units ==
    LET ms == R(1, 0, 100000) part == R(2, -4, 4) tenths == R(3, 0, 7) IN
    /\ Put([op |-> "units", ms |-> ms, part |-> part, tenths |-> tenths,
            exp |-> [sec |-> [n |-> ms, d |-> 1000], back |-> ms,
                     \* ms + part / 10 milliseconds, rounded
                     rounded |-> IF ms + part < 0 THEN 0 ELSE ms,
                     \* ms + (tenths + 1) / 10 milliseconds, truncated
                     truncated |-> ms,
                     equal |-> tenths < 5]])
    /\ UNCHANGED <<cur, acc, pair>>

Ops == <<"new", "new", "ata", "addata", "addata", "sym", "transform", "cross", "obstacle", "diagmats", "diagcopies", "kronid", "vcat", "vcat", "vcat", "hcat", "hcat",
         "rmrow", "rmcol", "rmrow", "rmcol", "selrows", "selrows", "unset", "pair", "pair", "location", "units">>
Next ==
    /\ n < MaxOps
    /\ n' = n + 1
    /\ UNCHANGED seed
    /\ LET op == RandOf(Ops, seed, 700 * n) IN
       CASE op = "new" -> New [] op = "ata" -> GetATA [] op = "addata" -> AddATA [] op = "sym" -> Symmetric [] op = "transform" -> Transform [] op = "cross" -> Cross [] op = "obstacle" -> Obstacle
         [] op = "diagmats" -> DiagMats [] op = "diagcopies" -> DiagCopies [] op = "kronid" -> KronId [] op = "vcat" -> VertCat [] op = "hcat" -> HorCat
         [] op = "rmrow" -> RemoveRow [] op = "rmcol" -> RemoveColumn [] op = "selrows" -> SelectRows [] op = "unset" -> Unset
         [] op = "pair" -> PairOp [] op = "location" -> LocationOp [] op = "units" -> Units
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------- invariants
WellFormed(m) == Len(m.M) = m.r /\ \A i \in 1..m.r : Len(m.M[i]) = m.c
ShapeOK == WellFormed(cur) /\ WellFormed(acc) /\ acc.r = acc.c
\* sums of products A^T A are symmetric and positive semidefinite
SymOK == /\ acc.M = TrN(acc.M, acc.c)
         /\ LET v == RandV(seed, 700 * n + 50, acc.r, 5) IN Dot(v, MV(acc.M, v)) >= 0
\* the rows selected with different first rows are all rows, once each
SelectionOK == \A step \in 1..3 :
    LET idx(f) == {k \in 1..cur.r : k > f /\ (k - f - 1) % step = 0} IN
    /\ UNION {idx(f) : f \in 0..step - 1} = 1..cur.r
    /\ \A f, g \in 0..step - 1 : f # g => idx(f) \cap idx(g) = {}
Emit == n = MaxOps => EmitCase([machine |-> "tools", seed |-> seed, steps |-> log])
=============================================================================
