------------------------------ MODULE Condense ------------------------------
(* Condensing of linear dynamics over a preview horizon:                    *)
(*     x_i = A_i x_{i-1} + B_i u_i,   y_i = D_i x_{i-1} + E_i u_i           *)
(* is rewritten as X = S x_0 + U u, Y = Ox x_0 + Ou u.  The defining        *)
(* property (checked by TLC as an invariant) is that the condensed form     *)
(* yields the same trajectory as stepping the dynamics one by one.          *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps, MaxN
VARIABLES seed, dims, cur, log
vars == <<seed, dims, cur, log>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 400 * Step + i, lo, hi)

DimsAll == << [nv |-> 2, nc |-> 1, no |-> 2], [nv |-> 3, nc |-> 2, no |-> 2],
              [nv |-> 2, nc |-> 2, no |-> 1], [nv |-> 3, nc |-> 1, no |-> 3], [nv |-> 3, nc |-> 3, no |-> 1] >>

\* Phi(A, i, k) = A_i A_{i-1} ... A_{k+1}
RECURSIVE Phi(_, _, _, _)
Phi(A, i, k, nv) == IF i = k THEN IdM(nv) ELSE MM(A[i], Phi(A, i - 1, k, nv))
SMat(A, N, nv) == Flat([i \in 1..N |-> Phi(A, i, 0, nv)])
UBlock(A, B, i, k, nv, nc) == IF k > i THEN ZeroM(nv, nc) ELSE MM(Phi(A, i, k, nv), B[k])
RECURSIVE HCatAll(_, _)
HCatAll(ms, k) == IF k = 1 THEN ms[1] ELSE HCat(HCatAll(ms, k - 1), ms[k])
UMat(A, B, N, nv, nc) == Flat([i \in 1..N |-> HCatAll([k \in 1..N |-> UBlock(A, B, i, k, nv, nc)], N)])
OxMat(A, D, N, nv) == Flat([i \in 1..N |-> MM(D[i], Phi(A, i - 1, 0, nv))])
OuBlock(A, B, D, E, i, k, nv, nc, no) ==
    IF k > i THEN ZeroM(no, nc) ELSE IF k = i THEN E[i] ELSE MM(D[i], UBlock(A, B, i - 1, k, nv, nc))
OuMat(A, B, D, E, N, nv, nc, no) == Flat([i \in 1..N |-> HCatAll([k \in 1..N |-> OuBlock(A, B, D, E, i, k, nv, nc, no)], N)])

\* stepping
RECURSIVE SimX(_, _, _, _, _)
SimX(A, B, x0, u, i) == IF i = 0 THEN x0 ELSE VAdd(MV(A[i], SimX(A, B, x0, u, i - 1)), MV(B[i], u[i]))
SimY(A, B, D, E, x0, u, i) == VAdd(MV(D[i], SimX(A, B, x0, u, i - 1)), MV(E[i], u[i]))

NoCur == [N |-> 0]
Init == /\ seed \in SeedLo..SeedHi
        /\ dims = RandOf(DimsAll, seed, 0)
        /\ cur = NoCur
        /\ log = <<>>

Mats(n, r, c, base, inv) == [k \in 1..n |-> RandM(seed, 400 * Step + base + (IF inv THEN 0 ELSE 31 * k), r, c, 2)]
\* one call of the library with fresh matrices
Call ==
    \E form \in ChooseFrom(FALSE, {"block", "full", "dense", "invariant", "oblock", "odense", "ogroups"}, seed, 400 * Step) :
    LET N == R(1, 1, MaxN)
        nv == dims.nv nc == dims.nc no == dims.no
        inv == form = "invariant"
        A == Mats(N, nv, nv, 10, inv)
        B == Mats(N, nv, nc, 40, inv)
        D == Mats(N, no, nv, 70, form = "odense")
        E == Mats(N, no, nc, 95, form = "odense")
        u == [k \in 1..N |-> RandV(seed, 400 * Step + 7 * k + 300, nc, 2)]
        x0 == RandV(seed, 400 * Step + 390, nv, 2)
        out == form \in {"oblock", "odense", "ogroups"}
        S == SMat(A, N, nv) U == UMat(A, B, N, nv, nc)
        Ox == OxMat(A, D, N, nv) Ou == OuMat(A, B, D, E, N, nv, nc, no)
    IN
    /\ cur' = [N |-> N, A |-> A, B |-> B, D |-> D, E |-> E, u |-> u, x0 |-> x0, S |-> S, U |-> U, Ox |-> Ox, Ou |-> Ou]
    /\ log' = Append(log, [op |-> form, A |-> A, B |-> B, D |-> D, E |-> E, N |-> N,
                           exp |-> IF out THEN [Ox |-> Ox, Ou |-> Ou] ELSE [S |-> S, U |-> U]])
    /\ UNCHANGED <<seed, dims>>
\* mismatching numbers of matrices are refused
Refuse ==
    LET N == R(1, 1, 3) IN
    /\ log' = Append(log, [op |-> RandOf(<<"block", "dense">>, seed, 400 * Step + 2), N |-> N,
                           A |-> Mats(IF R(3, 0, 1) = 0 THEN N - 1 ELSE N, dims.nv, dims.nv, 10, FALSE),
                           B |-> Mats(IF R(3, 0, 1) = 0 THEN N ELSE N - 1, dims.nv, dims.nc, 40, FALSE), exp |-> [throws |-> TRUE]])
    /\ UNCHANGED <<seed, dims, cur>>
Next == Step < MaxOps /\ IF R(0, 0, 11) = 0 THEN Refuse ELSE Call
Spec == Init /\ [][Next]_vars

CondensedOK == cur.N > 0 =>
    LET X == VAdd(MV(cur.S, cur.x0), MV(cur.U, Flat(cur.u)))
        Y == VAdd(MV(cur.Ox, cur.x0), MV(cur.Ou, Flat(cur.u)))
    IN /\ X = Flat([i \in 1..cur.N |-> SimX(cur.A, cur.B, cur.x0, cur.u, i)])
       /\ Y = Flat([i \in 1..cur.N |-> SimY(cur.A, cur.B, cur.D, cur.E, cur.x0, cur.u, i)])
Emit == Step = MaxOps => EmitCase([machine |-> "condense", seed |-> seed, dims |-> dims, steps |-> log])
=============================================================================
