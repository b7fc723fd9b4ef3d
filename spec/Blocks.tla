------------------------------- MODULE Blocks -------------------------------
(* Matrices made of blocks and their block Kronecker products with an       *)
(* identity matrix are views of dense matrices: sizes, access to parts and  *)
(* products with matrices, vectors and other block matrices.                *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps

VARIABLES seed, n, type, cur, log
vars == <<seed, n, type, cur, log>>
R(i, lo, hi) == RandInt(seed, 900 * n + i, lo, hi)

\* sizes of blocks known at compile time (0: not known) and sparsity
T(r, c, s) == [r |-> r, c |-> c, s |-> s]
Types == <<T(1, 1, "none"), T(1, 1, "diag"), T(1, 1, "tri"), T(2, 3, "none"), T(2, 2, "diag"), T(2, 3, "diag"), T(3, 2, "tri"),
           T(0, 0, "none"), T(0, 0, "diag"), T(0, 0, "tri"), T(2, 0, "none"), T(0, 3, "none"), T(2, 0, "tri"), T(0, 3, "diag")>>

\* cur: sizes of blocks, numbers of blocks, elements; ok: the matrix is usable
NewCur(br, bc, nv, nh, M) == [ok |-> TRUE, br |-> br, bc |-> bc, nv |-> nv, nh |-> nh, M |-> M]
Allowed(s, i, j) == CASE s = "diag" -> i = j [] s = "tri" -> i >= j [] OTHER -> TRUE
RandMat(i, r, c) == RandM(seed, 900 * n + i, r, c, 9)
\* a matrix with the sparsity of the type
Sparse(br, bc, nv, nh, i) == LET A == RandMat(i, br * nv, bc * nh) IN
    [a \in 1..br * nv |-> [b \in 1..bc * nh |-> IF Allowed(type.s, (a - 1) \div br, (b - 1) \div bc) THEN A[a][b] ELSE 0]]
\* block diagonal matrices are square in blocks, the others are not too wide
MaxBlocks == IF seed % 10 = 0 THEN 7 ELSE 3
Nv(i) == R(i, 0, MaxBlocks)
Nh(i) == CASE type.s = "diag" -> Nv(i) [] type.s = "tri" -> R(i + 1, 0, Nv(i)) [] OTHER -> R(i + 1, 0, MaxBlocks)
RowsOf(c) == c.br * c.nv
ColsOf(c) == c.bc * c.nh

View(c) == [sizes |-> <<c.nv, c.nh, c.br, c.bc, RowsOf(c), ColsOf(c)>>, raw |-> c.M]
GetBlock(c, i, j) == Block(c.M, c.br * i + 1, c.bc * j + 1, c.br, c.bc)
AllBlocks(c) == [i \in 1..c.nv |-> [j \in 1..c.nh |-> GetBlock(c, i - 1, j - 1)]]

Init == /\ seed \in SeedLo..SeedHi /\ n = 0
        /\ type = RandOf(Types, seed, 1)
        /\ cur = NewCur(IF type.r = 0 THEN RandInt(seed, 2, 1, 3) ELSE type.r, IF type.c = 0 THEN RandInt(seed, 3, 1, 3) ELSE type.c, 0, 0, <<>>)
        /\ log = <<[op |-> "setup", type |-> type, br |-> cur.br, bc |-> cur.bc, exp |-> View(cur)]>>

Put(rec) == log' = Append(log, rec)
Keep == UNCHANGED cur

\* ------------------------------------------------------------ contents
\* assignment of a matrix; sizes which are not multiples of those of a block are refused
Set ==
    LET bad == R(1, 1, 8) = 1 /\ cur.br > 1
        nv == Nv(2) nh == Nh(2)
        r == cur.br * nv + (IF bad THEN R(4, 1, cur.br - 1) ELSE 0)
        M == IF bad THEN RandMat(10, r, cur.bc * nh) ELSE Sparse(cur.br, cur.bc, nv, nh, 10)
    IN /\ cur' = IF bad THEN [cur EXCEPT !.ok = FALSE] ELSE NewCur(cur.br, cur.bc, nv, nh, M)
       /\ Put([op |-> "set", how |-> R(5, 1, 2), M |-> M, rows |-> r, cols |-> cur.bc * nh, exp |-> IF bad THEN [throws |-> TRUE] ELSE View(cur')])
Zero ==
    LET square == R(1, 1, 2) = 1 nv == Nv(2) nh == IF square THEN nv ELSE Nh(2) IN
    /\ cur' = NewCur(cur.br, cur.bc, nv, nh, ZeroM(cur.br * nv, cur.bc * nh))
    /\ Put([op |-> "zero", square |-> square, nv |-> nv, nh |-> nh, exp |-> View(cur')])
\* all blocks are written one by one after a change of the size
Fill ==
    LET square == R(1, 1, 2) = 1 nv == Nv(2) nh == IF square THEN nv ELSE Nh(2) M == Sparse(cur.br, cur.bc, nv, nh, 10)
        c == NewCur(cur.br, cur.bc, nv, nh, M) IN
    /\ cur' = c
    /\ Put([op |-> "fill", square |-> square, nv |-> nv, nh |-> nh, blocks |-> AllBlocks(c), exp |-> View(c)])
NonEmpty == cur.ok /\ cur.nv > 0 /\ cur.nh > 0
\* one block, also by a single index and by an interface to another matrix
WriteBlock ==
    /\ NonEmpty
    /\ LET i == R(1, 0, cur.nv - 1) j0 == R(2, 0, cur.nh - 1)
           how == R(4, 1, 3)
           diag == how = 2 /\ i < cur.nh
           j == IF diag THEN i ELSE CASE type.s = "diag" -> i [] type.s = "tri" -> Min2(j0, i) [] OTHER -> j0
           B == RandMat(20, cur.br, cur.bc)
       IN /\ cur' = [cur EXCEPT !.M = SetBlock(@, cur.br * i + 1, cur.bc * j + 1, B)]
          /\ Put([op |-> "write", i |-> i, j |-> j, diag |-> diag, iface |-> how = 3, B |-> B, exp |-> View(cur')])
\* a part of a column or a row of blocks
WriteLine ==
    /\ NonEmpty
    /\ LET col == R(1, 1, 2) = 1
           k == R(2, 0, (IF col THEN cur.nh ELSE cur.nv) - 1)
           len == IF col THEN cur.nv ELSE cur.nh
           \* positions where the matrix may be different from zero
           lo == IF type.s = "diag" THEN k ELSE IF type.s = "tri" /\ col THEN k ELSE 0
           hi == IF type.s = "diag" THEN k ELSE IF type.s = "tri" /\ ~col THEN Min2(k, len - 1) ELSE len - 1
           first == R(3, lo, Max2(lo, hi))
           rest == R(5, 1, 2) = 1 /\ hi = len - 1
           num == IF rest THEN len - first ELSE R(4, 0, hi - first + 1)
           B == IF col THEN RandMat(20, cur.br * num, cur.bc) ELSE RandMat(20, cur.br, cur.bc * num)
       IN IF first > hi \/ first >= len THEN cur' = cur /\ UNCHANGED log
          ELSE /\ cur' = [cur EXCEPT !.M = IF num = 0 THEN @ ELSE IF col THEN SetBlock(@, cur.br * first + 1, cur.bc * k + 1, B) ELSE SetBlock(@, cur.br * k + 1, cur.bc * first + 1, B)]
               /\ Put([op |-> "line", col |-> col, k |-> k, first |-> first, num |-> num, rest |-> rest, B |-> B, exp |-> View(cur')])
ReadParts ==
    /\ NonEmpty
    /\ LET k == R(1, 0, cur.nh - 1) f == R(2, 0, cur.nv - 1) m == R(3, 0, cur.nv - f)
           k2 == R(4, 0, cur.nv - 1) f2 == R(5, 0, cur.nh - 1) m2 == R(6, 0, cur.nh - f2)
           C(a, b) == Block(cur.M, cur.br * a + 1, cur.bc * k + 1, cur.br * b, cur.bc)
           W(a, b) == Block(cur.M, cur.br * k2 + 1, cur.bc * a + 1, cur.br, cur.bc * b)
       IN Put([op |-> "parts", k |-> k, f |-> f, m |-> m, k2 |-> k2, f2 |-> f2, m2 |-> m2, iface |-> R(7, 1, 2) = 1,
               exp |-> [blocks |-> AllBlocks(cur), diag |-> [i \in 1..Min2(cur.nv, cur.nh) |-> GetBlock(cur, i - 1, i - 1)],
                        col |-> C(f, m), colrest |-> C(f, cur.nv - f), colall |-> C(0, cur.nv),
                        row |-> W(f2, m2), rowrest |-> W(f2, cur.nh - f2), rowall |-> W(0, cur.nh)]])
    /\ Keep
\* sizes of blocks may be changed if they are not fixed
BlockSize ==
    /\ cur.ok /\ type.s = "none" /\ (type.r = 0 \/ type.c = 0)
    /\ LET br == IF type.r = 0 THEN R(1, 0, 4) ELSE cur.br
           bc == IF type.c = 0 THEN R(2, 0, 4) ELSE cur.bc
           r == RowsOf(cur) c == ColsOf(cur)
           zero == br = 0 \/ bc = 0
           bad == IF zero THEN TRUE ELSE r % br # 0 \/ c % bc # 0
       IN /\ cur' = IF zero THEN cur ELSE IF bad THEN [cur EXCEPT !.ok = FALSE, !.br = br, !.bc = bc] ELSE NewCur(br, bc, r \div br, c \div bc, cur.M)
          /\ Put([op |-> "blocksize", br |-> br, bc |-> bc, exp |-> IF bad THEN [throws |-> TRUE] ELSE View(cur')])

\* ------------------------------------------------------------ products
DiagBlocks(nb, r, c, i) == LET A == RandMat(i, r * nb, c * nb) IN
    [a \in 1..r * nb |-> [b \in 1..c * nb |-> IF (a - 1) \div r = (b - 1) \div c THEN A[a][b] ELSE 0]]
\* with a dense matrix on the right; a wrong size is refused (by Eigen itself
\* if the matrix is not sparse: not generated)
MulRight ==
    /\ cur.ok
    /\ LET bad == R(1, 1, 10) = 1 /\ (type.s = "diag" \/ (type.s = "tri" /\ type.r = 1))
           k == R(2, 1, 3) X == RandMat(20, ColsOf(cur) + (IF bad THEN 1 ELSE 0), k) IN
       Put([op |-> "mul", X |-> X, rows |-> ColsOf(cur) + (IF bad THEN 1 ELSE 0), cols |-> k, exp |-> IF bad THEN [throws |-> TRUE] ELSE [res |-> MMN(cur.M, X, k)]])
    /\ Keep
MulLeft ==
    /\ cur.ok /\ type.s = "diag"
    /\ LET bad == R(1, 1, 10) = 1
           k == R(2, 1, 3) w == RowsOf(cur) + (IF bad THEN 1 ELSE 0) X == RandMat(20, k, w) IN
       Put([op |-> "lmul", X |-> X, rows |-> k, cols |-> w, exp |-> IF bad THEN [throws |-> TRUE] ELSE [res |-> MMN(X, cur.M, ColsOf(cur))]])
    /\ Keep
\* with a block diagonal matrix on the right, with any matrix of blocks on the right of a block diagonal one
MulBlocks ==
    /\ cur.ok
    /\ LET k == IF type.c > 0 THEN 2 ELSE R(1, 1, 3)
           diag == R(2, 1, 2) = 1 \/ type.s # "diag"
           nb == R(3, 1, 3)
           cols == IF diag THEN k * cur.nh ELSE k * nb
           X == IF diag THEN DiagBlocks(cur.nh, cur.bc, k, 20) ELSE RandMat(20, ColsOf(cur), cols)
       IN Put([op |-> "bmul", diag |-> diag, k |-> k, X |-> X, rows |-> ColsOf(cur), cols |-> cols, exp |-> [res |-> MMN(cur.M, X, cols)]])
    /\ Keep

\* ------------------------------------------------------------ Kronecker
\* each block B becomes a block diagonal matrix with id copies of B
Kron(c, id) == [a \in 1..RowsOf(c) * id |-> [b \in 1..ColsOf(c) * id |->
    LET br == c.br bc == c.bc
        bi == (a - 1) \div (br * id) ri == (a - 1) % (br * id)
        bj == (b - 1) \div (bc * id) rj == (b - 1) % (bc * id)
    IN IF ri \div br # rj \div bc THEN 0 ELSE c.M[(bi * br) + (ri % br) + 1][(bj * bc) + (rj % bc) + 1]]]
\* the matrix or the rows of it with the given index in their blocks
Selected(c, k) == NewCur(1, c.bc, c.nv, c.nh, [i \in 1..c.nv |-> c.M[(i - 1) * c.br + k + 1]])
Source(i) == IF R(i, 1, 3) = 1 THEN -1 ELSE R(i + 1, 0, cur.br - 1)
Of(src) == IF src = -1 THEN cur ELSE Selected(cur, src)
KronEval ==
    /\ cur.ok
    /\ LET id == IF R(1, 1, 12) = 1 THEN R(2, 0, 1) ELSE R(2, 2, 3)
           c == Of(Source(3))
           h == RowsOf(c) * id w == ColsOf(c) * id
           block == R(6, 1, 2) = 1
           \* (assigned to a part of a larger matrix)
           big == RandMat(30, h + 2, w + 3)
           K == Kron(c, id)
       IN Put([op |-> "kron", id |-> id, src |-> Source(3), block |-> block, big |-> big, rows |-> h, cols |-> w,
               exp |-> IF id < 2 THEN [throws |-> TRUE]
                       ELSE IF ~block THEN [res |-> K]
                       ELSE [res |-> [a \in 1..(h + 2) |-> [b \in 1..(w + 3) |-> IF a \in 2..(h + 1) /\ b \in 3..(w + 2) THEN K[a - 1][b - 2] ELSE big[a][b]]]]])
    /\ Keep
\* (there is no product of a triangular matrix with a vector)
KronVec ==
    /\ cur.ok /\ type.s # "tri"
    /\ LET id == R(2, 2, 3)
           c == Of(Source(3)) v == RandV(seed, 900 * n + 20, ColsOf(c) * id, 9)
       IN Put([op |-> "kronvec", id |-> id, src |-> Source(3), v |-> v, exp |-> [res |-> MV(Kron(c, id), v)]])
    /\ Keep
\* with a block diagonal matrix, the blocks of which have as many rows as the enlarged blocks have columns
KronDiag ==
    /\ cur.ok
    /\ LET id == R(2, 2, 3) c == Of(Source(3))
           \* 1: wrong size of a block, 2: wrong number of blocks
           bad == R(5, 1, 16)
           r == c.bc * id + (IF bad = 1 THEN 1 ELSE 0) nb == c.nh + (IF bad = 2 THEN 1 ELSE 0) k == R(6, 1, 4)
           X == DiagBlocks(nb, r, k, 40)
       IN Put([op |-> "krondiag", id |-> id, src |-> Source(3), r |-> r, k |-> k, nb |-> nb, X |-> X,
               exp |-> IF bad <= 2 THEN [throws |-> TRUE] ELSE [res |-> MMN(Kron(c, id), X, k * c.nh)]])
    /\ Keep
\* (only for triangular matrices of scalars)
DiagKron ==
    /\ cur.ok /\ type.s = "tri" /\ type.r = 1 /\ type.c = 1
    /\ LET id == R(2, 2, 3) bad == R(5, 1, 12)
           r == R(6, 1, 4) k == id + (IF bad = 1 THEN 1 ELSE 0) nb == cur.nv + (IF bad = 2 THEN 1 ELSE 0)
           X == DiagBlocks(nb, r, k, 40)
       IN Put([op |-> "diagkron", id |-> id, r |-> r, k |-> k, nb |-> nb, X |-> X,
               exp |-> IF bad <= 2 THEN [throws |-> TRUE] ELSE [res |-> MMN(X, Kron(cur, id), ColsOf(cur) * id)]])
    /\ Keep
Select ==
    /\ NonEmpty
    /\ LET k == R(1, 0, cur.br - 1) c == Selected(cur, k) w == R(3, 1, 3) X == RandMat(20, ColsOf(c), w) IN
       Put([op |-> "select", k |-> k, X |-> X, exp |-> [view |-> View(c), matrix |-> c.M, blocks |-> AllBlocks(c), res |-> MMN(c.M, X, w)]])
    /\ Keep

Ops == <<"set", "set", "zero", "fill", "write", "line", "line", "parts", "blocksize", "mul", "lmul", "bmul", "kron", "kronvec", "krondiag", "diagkron", "select">>
Next ==
    /\ n < MaxOps
    /\ n' = n + 1
    /\ UNCHANGED <<seed, type>>
    /\ LET op == IF ~cur.ok THEN (IF R(0, 1, 2) = 1 THEN "zero" ELSE "fill") ELSE RandOf(Ops, seed, 900 * n)
           Or(e, A) == IF e THEN A ELSE Set
           tri == type.s = "tri" diag == type.s = "diag"
       IN CASE op = "set" -> Set [] op = "zero" -> Zero [] op = "fill" -> Fill
            [] op = "write" -> Or(NonEmpty, WriteBlock) [] op = "line" -> Or(NonEmpty, WriteLine) [] op = "parts" -> Or(NonEmpty, ReadParts)
            [] op = "blocksize" -> IF type.s = "none" /\ (type.r = 0 \/ type.c = 0) THEN BlockSize ELSE Fill
            [] op = "mul" -> MulRight [] op = "lmul" -> IF diag THEN MulLeft ELSE MulRight [] op = "bmul" -> MulBlocks
            [] op = "kron" -> KronEval [] op = "kronvec" -> IF tri THEN KronEval ELSE KronVec [] op = "krondiag" -> KronDiag
            [] op = "diagkron" -> IF tri /\ type.r = 1 THEN DiagKron ELSE KronDiag [] op = "select" -> Or(NonEmpty, Select)
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------- invariants
\* the sizes agree, nothing is outside of the permitted blocks
ShapeOK == cur.ok => /\ Len(cur.M) = RowsOf(cur) /\ \A i \in 1..Len(cur.M) : Len(cur.M[i]) = ColsOf(cur)
                     /\ \A i \in 0..cur.nv - 1, j \in 0..cur.nh - 1 : ~Allowed(type.s, i, j) => GetBlock(cur, i, j) = ZeroM(cur.br, cur.bc)
\* the product distributes over products: (A (x) I)(B (x) I) = (A B) (x) I, blocks which have sizes that fit
KronOK == cur.ok => LET nb == 2 B == NewCur(cur.bc, 2, cur.nh, nb, RandM(seed, 77, ColsOf(cur), 2 * nb, 3)) IN
    MMN(Kron(cur, 2), Kron(B, 2), 4 * nb) = Kron(NewCur(cur.br, 2, cur.nv, nb, MMN(cur.M, B.M, 2 * nb)), 2)
\* each copy of the vector is multiplied separately
RECURSIVE Gather(_, _, _, _, _)
Gather(v, size, id, k, nb) == IF nb = 0 THEN <<>> ELSE Gather(v, size, id, k, nb - 1) \o Seg(v, (nb - 1) * size * id + k * size + 1, size)
CopiesOK == cur.ok => LET v == RandV(seed, 900 * n + 20, ColsOf(cur) * 2, 9) y == MV(Kron(cur, 2), v) IN
    \A k \in 0..1 : Gather(y, cur.br, 2, k, cur.nv) = MV(cur.M, Gather(v, cur.bc, 2, k, cur.nh))
Emit == n = MaxOps => EmitCase([machine |-> "blocks", seed |-> seed, steps |-> log])
=============================================================================
