-------------------------------- MODULE Num --------------------------------
(* Deterministic pseudo random data, integer helpers, exact rationals.      *)
(* All arithmetic stays within the 32-bit integers of TLC (TLC reports an   *)
(* error on overflow, so a too large value can not go unnoticed).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

\* "infinity" of the library (1e20); the replay driver maps +-INF to +-1e20
INF == 99999999

PR == 46337                        \* largest prime < sqrt(2^31); PR % 3 = 2
Cube(x) == (((x * x) % PR) * x) % PR
(* hash of (s, i), uniform in 0..PR-1 *)
Mix(s, i) == Cube((Cube((s * 7919 + 17) % PR) + Cube((i * 31 + 5) % PR) + 3 * i + 1) % PR)
(* the same, squared up twice: breaks the remaining additive structure *)
Hash(s, i) == Cube((Mix(s, i) + 31 * Mix(s + 1, i + 7)) % PR)

RandInt(s, i, lo, hi) == lo + (Hash(s, i) % (hi - lo + 1))
RandNZ(s, i, m) == LET v == RandInt(s, i, 1, 2 * m) IN IF v > m THEN m - v ELSE v   \* nonzero in -m..m
RandBool(s, i) == Hash(s, i) % 2 = 0
RandOf(seq, s, i) == seq[1 + (Hash(s, i) % Len(seq))]

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

(* ------------------------------ rationals ------------------------------ *)
\* [n |-> numerator, d |-> denominator > 0], always in lowest terms
Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == GCD(Abs(n), Abs(d))
           IN IF n = 0 THEN [n |-> 0, d |-> 1] ELSE [n |-> (s * n) \div g, d |-> (s * d) \div g]
QI(n) == [n |-> n, d |-> 1]
QZero == QI(0)
QOne == QI(1)
QNeg(a) == [n |-> -a.n, d |-> a.d]
QAdd(a, b) == LET g == GCD(a.d, b.d) IN Q(a.n * (b.d \div g) + b.n * (a.d \div g), a.d * (b.d \div g))
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g1 == GCD(Abs(a.n), b.d) g2 == GCD(Abs(b.n), a.d) IN
              IF a.n = 0 \/ b.n = 0 THEN QZero
              ELSE Q((a.n \div g1) * (b.n \div g2), (a.d \div g2) * (b.d \div g1))
QInv(a) == Q(a.d, a.n)
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == QSub(a, b).n < 0
QLe(a, b) == QSub(a, b).n <= 0
QIsZero(a) == a.n = 0

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE QSumSeq(_)
QSumSeq(s) == IF s = <<>> THEN QZero ELSE QAdd(Head(s), QSumSeq(Tail(s)))

(* -------------------------- choice / sampling -------------------------- *)
\* Exhaustive mode: all the choices; sampling mode: one, determined by (s, i).
ChooseFrom(exhaustive, S, s, i) ==
    IF exhaustive \/ S = {} THEN S ELSE {RandOf(SetToSeq(S), s, i)}

(* replay output: one line per finished behaviour *)
EmitCase(c) == PrintT("CASE " \o ToJson(c))
=============================================================================
