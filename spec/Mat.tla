-------------------------------- MODULE Mat --------------------------------
(* Integer matrices (sequences of rows) and rational matrices (prefix Q).   *)
EXTENDS Num

Vec(n, F(_)) == [i \in 1..n |-> F(i)]
Mat(m, n, F(_,_)) == [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]
Rows(M) == Len(M)
Cols(M) == IF M = <<>> THEN 0 ELSE Len(M[1])
ZeroV(n) == [i \in 1..n |-> 0]
ZeroM(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
IdM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
DiagM(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0]]

RECURSIVE DotR(_, _, _)
DotR(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + DotR(a, b, k - 1)
Dot(a, b) == DotR(a, b, Len(a))
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VNeg(a) == [i \in 1..Len(a) |-> -a[i]]
VScale(k, a) == [i \in 1..Len(a) |-> k * a[i]]
VConst(n, k) == [i \in 1..n |-> k]
MV(M, x) == [i \in 1..Len(M) |-> Dot(M[i], x)]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MNeg(A) == [i \in 1..Len(A) |-> VNeg(A[i])]
MScale(k, A) == [i \in 1..Len(A) |-> VScale(k, A[i])]
\* transpose of an m x n matrix; n is explicit: the matrix may have no rows
TrN(M, n) == [j \in 1..n |-> [i \in 1..Len(M) |-> M[i][j]]]
Tr(M) == TrN(M, Cols(M))
\* product; n = number of columns of B (explicit: B may have no rows)
MMN(A, B, n) == LET BT == TrN(B, n) IN [i \in 1..Len(A) |-> [j \in 1..n |-> Dot(A[i], BT[j])]]
MM(A, B) == MMN(A, B, Cols(B))
HCat(A, B) == [i \in 1..Len(A) |-> A[i] \o B[i]]
VCat(A, B) == A \o B
\* rows r0.., columns c0.. (1-based), size m x n
Block(A, r0, c0, m, n) == [i \in 1..m |-> [j \in 1..n |-> A[r0 + i - 1][c0 + j - 1]]]
SetBlock(A, r0, c0, B) ==
    [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |->
        IF i >= r0 /\ i < r0 + Rows(B) /\ j >= c0 /\ j < c0 + Cols(B)
        THEN B[i - r0 + 1][j - c0 + 1] ELSE A[i][j]]]
Seg(v, o, n) == [i \in 1..n |-> v[o + i - 1]]
LowerTri(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> IF j <= i THEN M[i][j] ELSE 0]]
RECURSIVE FlattenR(_, _)
FlattenR(ss, k) == IF k = 0 THEN <<>> ELSE FlattenR(ss, k - 1) \o ss[k]
Flat(ss) == FlattenR(ss, Len(ss))

(* random integer data *)
RandV(s, i, n, m) == [k \in 1..n |-> RandInt(s, i + k, -m, m)]
RandM(s, i, r, c, m) == [a \in 1..r |-> [b \in 1..c |-> RandInt(s, i + a * 17 + b, -m, m)]]

(* ------------------------------ rationals ------------------------------ *)
QV(v) == [i \in 1..Len(v) |-> QI(v[i])]
QM(M) == [i \in 1..Len(M) |-> QV(M[i])]
RECURSIVE QDotR(_, _, _)
QDotR(a, b, k) == IF k = 0 THEN QZero ELSE QAdd(QMul(a[k], b[k]), QDotR(a, b, k - 1))
QDot(a, b) == QDotR(a, b, Len(a))
QVAdd(a, b) == [i \in 1..Len(a) |-> QAdd(a[i], b[i])]
QVSub(a, b) == [i \in 1..Len(a) |-> QSub(a[i], b[i])]
QVNeg(a) == [i \in 1..Len(a) |-> QNeg(a[i])]
QVScale(k, a) == [i \in 1..Len(a) |-> QMul(k, a[i])]
QMV(M, x) == [i \in 1..Len(M) |-> QDot(M[i], x)]
QMAdd(A, B) == [i \in 1..Len(A) |-> QVAdd(A[i], B[i])]
QMSub(A, B) == [i \in 1..Len(A) |-> QVSub(A[i], B[i])]
QMNeg(A) == [i \in 1..Len(A) |-> QVNeg(A[i])]
QMScale(k, A) == [i \in 1..Len(A) |-> QVScale(k, A[i])]
QMMN(A, B, n) == LET BT == TrN(B, n) IN [i \in 1..Len(A) |-> [j \in 1..n |-> QDot(A[i], BT[j])]]
QMM(A, B) == QMMN(A, B, Cols(B))
QZeroM(m, n) == [i \in 1..m |-> [j \in 1..n |-> QZero]]
QZeroV(n) == [i \in 1..n |-> QZero]
QIdM(n) == QM(IdM(n))

\* Gauss-Jordan elimination of [M | b] (n x n, nonsingular), exact.
\* Result: <<ok, x>>.
RECURSIVE GaussR(_, _, _)
GaussR(W, k, n) ==
    IF k > n THEN <<TRUE, [i \in 1..n |-> W[i][n + 1]]>>
    ELSE LET piv == {i \in k..n : W[i][k].n # 0} IN
         IF piv = {} THEN <<FALSE, <<>> >>
         ELSE LET p  == CHOOSE i \in piv : \A j \in piv : i <= j
                  W1 == [W EXCEPT ![k] = W[p], ![p] = W[k]]
                  r  == QVScale(QInv(W1[k][k]), W1[k])
                  W2 == [i \in 1..n |-> IF i = k THEN r
                                        ELSE IF W1[i][k].n = 0 THEN W1[i]
                                        ELSE QVSub(W1[i], QVScale(W1[i][k], r))]
              IN GaussR(W2, k + 1, n)
QSolve(M, b) == GaussR([i \in 1..Len(M) |-> M[i] \o <<b[i]>>], 1, Len(M))
=============================================================================
