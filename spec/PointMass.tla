------------------------------ MODULE PointMass ------------------------------
(* Point mass (CoM at constant height) with piecewise linear motion of the  *)
(* CoP z:  c'' = w^2 (c - z).  The control is the CoP at the end of the     *)
(* interval.  All durations are multiples of ln r / w with a rational r,     *)
(* hence all quantities are exact numbers a + b ln r with rational a, b.    *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps
VARIABLES seed, w, log, last
vars == <<seed, w, log, last>>
Step == Len(log)
R(i, lo, hi) == RandInt(seed, 60 * Step + i, lo, hi)

\* numbers a + b ln r
LN(a, b) == [a |-> a, b |-> b]
LAdd(p, q) == LN(QAdd(p.a, q.a), QAdd(p.b, q.b))
LScale(k, p) == LN(QMul(k, p.a), QMul(k, p.b))
LQ(a) == LN(a, QZero)

\* one coordinate. y = c - z, y'' = w^2 y; components which grow / decay as exp(+-w t).
\* m: duration in units of ln r / w, i.e. exp(w t) = r^m
RECURSIVE Pow2(_, _)
Pow2(r, m) == IF m = 0 THEN QOne ELSE QMul(r, Pow2(r, m - 1))
\* s: [c, v, z, zd] (all rational), zd: velocity of the CoP. Result at time m ln r / w
After(s, r, m) ==
    LET y0 == QSub(s.c, s.z)
        yd0 == QSub(s.v, s.zd)
        up == QMul(QAdd(yd0, QMul(w, y0)), Pow2(r, m))               \* (y' + w y)(t)
        dn == QDiv(QSub(yd0, QMul(w, y0)), Pow2(r, m))               \* (y' - w y)(t)
        y == QDiv(QSub(up, dn), QMul(QI(2), w))
        yd == QDiv(QAdd(up, dn), QI(2))
        z == LN(s.z, QMul(s.zd, QDiv(QI(m), w)))                  \* z0 + zd t
    IN [c |-> LAdd(z, LQ(y)), v |-> QAdd(yd, s.zd), a |-> QMul(QMul(w, w), y), z |-> z, y |-> y, yd |-> yd]
Acc(s) == QMul(QMul(w, w), QSub(s.c, s.z))

Init == /\ seed \in SeedLo..SeedHi
        /\ w = RandOf(<<QI(1), QI(2), QI(3), Q(1, 2), Q(3, 2)>>, seed, 0)
        /\ log = <<>>
        /\ last = <<>>

Advance ==
    LET ss == [k \in 1..2 |-> [c |-> Q(R(10 * k + 1, -8, 8), 4), v |-> Q(R(10 * k + 2, -8, 8), 2),
                               z |-> Q(R(10 * k + 3, -8, 8), 4), zd |-> Q(R(10 * k + 4, -6, 6), 2)]]
        \* long intervals, and short ones as they are used for control
        r == RandOf(<<QI(2), QI(2), Q(5, 4), Q(17, 16), Q(257, 256), Q(1025, 1024)>>, seed, 60 * Step + 3)
        m == R(1, 1, CASE r = QI(2) -> 4 [] r = Q(5, 4) -> 3 [] r = Q(17, 16) -> 2 [] OTHER -> 1)            \* the whole interval
        ms == R(2, 1, m)           \* the moment of evaluation
        sub == [k \in 1..2 |-> After(ss[k], r, ms)]
        fin == [k \in 1..2 |-> After(ss[k], r, m)]
        L(v) == [a |-> v.a, b |-> v.b, r |-> r]
        st(f) == << L(f[1].c), L(LQ(f[1].v)), L(LQ(f[1].a)), L(f[2].c), L(LQ(f[2].v)), L(LQ(f[2].a)) >>
        x0 == << ss[1].c, ss[1].v, Acc(ss[1]), ss[2].c, ss[2].v, Acc(ss[2]) >>
    IN
    /\ last' = [ss |-> ss, r |-> r, m |-> m, ms |-> ms, sub |-> sub, fin |-> fin]
    /\ log' = Append(log, [op |-> "advance", w |-> w, r |-> r, m |-> m, ms |-> ms, x |-> x0, u |-> <<L(fin[1].z), L(fin[2].z)>>,
            exp |-> [fin |-> st(fin), sub |-> st(sub), eval |-> st(sub),
                     zd |-> <<ss[1].zd, ss[2].zd>>,                               \* D x + E u
                     cop |-> <<ss[1].z, ss[2].z>>, copfin |-> <<L(fin[1].z), L(fin[2].z)>>,
                     cpv |-> [k \in 1..2 |-> QAdd(ss[k].v, QDiv(Acc(ss[k]), w))],
                     roundtrip |-> x0, height |-> QDiv(Q(49, 5), QMul(w, w))]])
    /\ UNCHANGED <<seed, w>>
Next == Step < MaxOps /\ Advance
Spec == Init /\ [][Next]_vars

\* evaluating at ms and going on from there reaches the same final state
SemigroupOK == last # <<>> => \A k \in 1..2 :
    LET a == last.sub[k]
        y0 == a.y yd0 == a.yd rest == last.m - last.ms
        up == QMul(QAdd(yd0, QMul(w, y0)), Pow2(last.r, rest))
        dn == QDiv(QSub(yd0, QMul(w, y0)), Pow2(last.r, rest))
    IN QDiv(QSub(up, dn), QMul(QI(2), w)) = last.fin[k].y /\ QDiv(QAdd(up, dn), QI(2)) = last.fin[k].yd
\* the CoP of the final state is the control
CopOK == last # <<>> => \A k \in 1..2 : LAdd(last.fin[k].c, LScale(QI(-1), LQ(QDiv(last.fin[k].a, QMul(w, w))))) = last.fin[k].z
Emit == Step = MaxOps => EmitCase([machine |-> "pointmass", seed |-> seed, steps |-> log])
=============================================================================
