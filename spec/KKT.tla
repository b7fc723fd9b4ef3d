-------------------------------- MODULE KKT --------------------------------
(* The equality constrained least squares problem solved by the KKT solver. *)
(*                                                                          *)
(*   min || C x - d ||^2   s.t.  A x = b                                    *)
(*                                                                          *)
(* Instances are constructed around an integer solution xs and integer      *)
(* multipliers; the invariants establish, on the specification, that xs is  *)
(* feasible, stationary and (on a grid of feasible points) optimal. The     *)
(* real solver has to return xs, for each of its methods, in any sequence   *)
(* of problems of varying size solved with the same solver object.          *)
EXTENDS Constraints
CONSTANTS SeedLo, SeedHi, Rounds, MaxVars
VARIABLES seed, round, inst, log
vars == <<seed, round, inst, log>>

R(i, lo, hi) == RandInt(seed, round * 400 + i, lo, hi)

DivX(a, b) == IF b < 0 THEN -(a \div (-b)) ELSE a \div b
\* ---- an instance ---------------------------------------------------------
\* k1 general constraint rows with a unit in column i (echelon: row i has zeros before column i),
\* k2 fixed variables k1+1..k1+k2
MkInstance(s, r) ==
    LET New(i, lo, hi) == RandInt(s, r * 400 + i, lo, hi)
        \* sometimes: the preceding problem with one of the small weights and a coordinate of the solution changed
        again == s % 2 = 0 /\ r > 1 /\ New(390, 0, 2) = 0
        rb == IF again THEN r - 1 ELSE r
        RR(i, lo, hi) == RandInt(s, rb * 400 + i, lo, hi)
        \* half of the sequences: problems of the same size (the solver keeps nothing of the previous one)
        n  == IF s % 2 = 0 THEN RandInt(s, 1, 1, MaxVars) ELSE RR(1, 1, MaxVars)
        \* weights of very different magnitude; multipliers are scaled such that residuals remain integers
        heavy == RR(171, 0, 1) = 1
        scale == IF heavy THEN 100 ELSE 1
        method == RR(2, 1, 3)
        two == RR(3, 0, 3) # 0                 \* two levels?
        most == IF n <= 5 THEN 2 ELSE 4
        k1 == IF two THEN RR(4, 0, Min2(most, n)) ELSE 0
        k2 == IF two THEN RR(5, IF k1 = 0 THEN 1 ELSE 0, Min2(most, n - k1)) ELSE 0
        xs == [i \in 1..n |-> IF again /\ i = New(391, 1, n) THEN New(10 + i, -3, 3) ELSE RR(10 + i, -3, 3)]
        Ag == [i \in 1..k1 |-> [j \in 1..n |-> IF j < i THEN 0 ELSE IF j = i THEN RandNZ(s, rb * 400 + 20 + i, 2) ELSE RR(200 + 12 * i + j, -2, 2)]]
        Is == [i \in 1..k2 |-> k1 + i - 1]
        \* multipliers
        lg == [i \in 1..k1 |-> scale * RR(60 + i, -3, 3)]
        ls == [i \in 1..k2 |-> scale * RR(65 + i, -3, 3)]
        v  == [j \in 1..n |-> -(SumSeq([i \in 1..k1 |-> Ag[i][j] * lg[i]]) + SumSeq([i \in 1..k2 |-> IF Is[i] + 1 = j THEN ls[i] ELSE 0]))]
        \* objective: +-x_j = ..., residual v_j
        wt0 == [j \in 1..n |-> RandOf(<<1, 2, 5, 10, 50, 100>>, s, rb * 400 + 180 + j)]
        wt == [j \in 1..n |-> IF again /\ wt0[j] <= 5 /\ j = New(392, 1, n) THEN RandOf(<<1, 2, 4, 5>>, s, r * 400 + 180 + j) ELSE wt0[j]]
        sg == [j \in 1..n |-> (IF RR(70 + j, 0, 1) = 0 THEN 1 ELSE -1) * (IF heavy THEN wt[j] ELSE 1)]
        simpleObj == method = 3 \/ RR(6, 0, 3) = 0
        badMethod == FALSE
        \* extra rows with zero residual, or pairs of equal rows with opposite residuals
        m1 == IF simpleObj THEN 0 ELSE RR(7, 0, 2)
        C1 == [i \in 1..m1 |-> [j \in 1..n |-> RR(100 + 7 * i + j, -2, 2)]]
        de == [i \in 1..m1 |-> RR(130 + i, -2, 2)]
        \* a second weighted simple task with residuals that cancel out
        m2 == RR(8, 0, Min2(2, n))
        gg == [i \in 1..m2 |-> RandNZ(s, rb * 400 + 140 + i, 3)]
        dd == [i \in 1..m2 |-> RR(150 + i, -2, 2)]
        zero == [fam |-> "A", bnd |-> "B", n |-> n, A |-> <<>>, w |-> n, off |-> 0, I |-> <<>>, G |-> <<>>, L |-> <<>>, U |-> <<>>, B |-> <<>>]
        idI == [zero EXCEPT !.fam = "GI", !.I = [j \in 1..n |-> j - 1], !.G = sg, !.B = [j \in 1..n |-> sg[j] * xs[j] - DivX(v[j], sg[j])]]
        idA == [zero EXCEPT !.A = [j \in 1..n |-> UnitRow(n, j, sg[j])], !.B = [j \in 1..n |-> sg[j] * xs[j] - DivX(v[j], sg[j])]]
        idU == [zero EXCEPT !.fam = "I", !.I = [j \in 1..n |-> j - 1], !.B = [j \in 1..n |-> xs[j] - v[j]]]
        e1  == [zero EXCEPT !.A = C1, !.B = [i \in 1..m1 |-> Dot(C1[i], xs) + de[i]]]
        e2  == [zero EXCEPT !.A = C1, !.B = [i \in 1..m1 |-> Dot(C1[i], xs) - de[i]]]
        \* the same rows once more as a selection A*S
        s1  == [zero EXCEPT !.fam = "AS", !.off = 0, !.w = n]
        w2  == [zero EXCEPT !.fam = "GI", !.I = [i \in 1..(2 * m2) |-> (i - 1) % m2],
                            !.G = [i \in 1..(2 * m2) |-> gg[((i - 1) % m2) + 1]],
                            !.B = [i \in 1..(2 * m2) |-> LET k == ((i - 1) % m2) + 1 IN gg[k] * xs[k] + (IF i <= m2 THEN dd[k] ELSE -dd[k])]]
        id  == IF simpleObj THEN (IF RR(9, 0, 1) = 0 THEN idI ELSE idU) ELSE RandOf(<<idI, idA, idU>>, s, rb * 400 + 9)
        obj == <<id>> \o (IF m1 > 0 THEN <<e1, e2>> ELSE <<>>) \o (IF m2 > 0 THEN <<w2>> ELSE <<>>)
        cg  == [zero EXCEPT !.A = Ag, !.B = [i \in 1..k1 |-> Dot(Ag[i], xs)]]
        cs  == [zero EXCEPT !.fam = "I", !.I = Is, !.B = [i \in 1..k2 |-> xs[Is[i] + 1]]]
        con == (IF k1 > 0 THEN <<cg>> ELSE <<>>) \o (IF k2 > 0 THEN <<cs>> ELSE <<>>)
    IN [n |-> n, method |-> method, xs |-> xs, obj |-> obj, con |-> con,
        lam |-> lg \o ls,
        call |-> RR(170, 0, 1)]   \* 0: parameters given to solve(), 1: given to setParameters()

KindIx(c) == (CASE c.fam = "I" -> 0 [] c.fam = "GI" -> 5 [] c.fam = "A" -> 10 [] c.fam = "AS" -> 15)
             + (CASE c.bnd = "LU" -> 1 [] c.bnd = "L" -> 2 [] c.bnd = "U" -> 3 [] c.bnd = "B" -> 4 [] c.bnd = "B0" -> 5)
Kinds(cs) == [i \in 1..Len(cs) |-> KindOrder[KindIx(cs[i])]]

Diagonal(cs) == \A i \in 1..Len(cs) : IsSimple(cs[i])

Init == seed \in SeedLo..SeedHi /\ round = 0 /\ inst = <<>> /\ log = <<>>

Next ==
    /\ round < Rounds
    /\ round' = round + 1
    /\ LET ins == MkInstance(seed, round + 1)
           lv  == (IF ins.con = <<>> THEN <<>> ELSE <<ins.con>>) \o <<ins.obj>>
           \* sometimes: a problem that the solver has to refuse
           refuse == RandInt(seed, round * 400 + 399, 0, 11)
           ineq == [fam |-> "A", bnd |-> "L", n |-> ins.n, A |-> <<[j \in 1..ins.n |-> 1]>>, w |-> ins.n, off |-> 0,
                    I |-> <<>>, G |-> <<>>, L |-> <<-100>>, U |-> <<>>, B |-> <<>>]
           bad1 == refuse = 0       \* inequality among the objectives
           bad2 == refuse = 1 /\ ins.con # <<>>   \* inequality among the constraints
           bad3 == refuse = 2       \* three levels
           meth == IF refuse = 3 THEN 3 ELSE ins.method    \* elimination with a possibly non-diagonal Hessian
           lv2 == IF bad1 THEN [lv EXCEPT ![Len(lv)] = @ \o <<ineq>>]
                  ELSE IF bad2 THEN [lv EXCEPT ![1] = @ \o <<ineq>>]
                  ELSE IF bad3 THEN [l \in 1..3 |-> <<ins.obj[1]>>] ELSE lv
           fails == bad1 \/ bad2 \/ bad3 \/ (meth = 3 /\ ~Diagonal(ins.obj))
       IN /\ inst' = ins
          /\ log' = Append(log, [op |-> "kkt", n |-> ins.n, method |-> meth, call |-> ins.call,
                                 levels |-> [l \in 1..Len(lv2) |-> [i \in 1..Len(lv2[l]) |-> [kind |-> Kinds(lv2[l])[i], c |-> lv2[l][i]]]],
                                 exp |-> IF fails THEN [throws |-> TRUE] ELSE [x |-> ins.xs, status |-> 1]])
    /\ UNCHANGED seed

Spec == Init /\ [][Next]_vars

\* ---- the constructed point is the optimum ---------------------------------
Stack(cs) == [A |-> Flat([i \in 1..Len(cs) |-> AsAB(cs[i]).A]), b |-> Flat([i \in 1..Len(cs) |-> AsAB(cs[i]).b])]
Cost(o, x) == SumSeq([r \in 1..Len(o.A) |-> LET e == Dot(o.A[r], x) - o.b[r] IN e * e])
Feasible == round > 0 => SatAB(Stack(inst.con), inst.xs)
Stationary ==
    round > 0 =>
        LET o == Stack(inst.obj) c == Stack(inst.con) IN
        \A j \in 1..inst.n :
            SumSeq([r \in 1..Len(o.A) |-> o.A[r][j] * (Dot(o.A[r], inst.xs) - o.b[r])])
              + SumSeq([r \in 1..Len(c.A) |-> c.A[r][j] * inst.lam[r]]) = 0
Optimal ==
    round > 0 =>
        LET o == Stack(inst.obj) c == Stack(inst.con) IN
        \A d \in [1..inst.n -> {-1, 0, 1}] :
            LET x == VAdd(inst.xs, d) IN SatAB(c, x) /\ x # inst.xs => Cost(o, x) > Cost(o, inst.xs)

Emit == round = Rounds => EmitCase([machine |-> "kkt", seed |-> seed, tol |-> [n |-> 1, d |-> 100000], steps |-> log])
=============================================================================
