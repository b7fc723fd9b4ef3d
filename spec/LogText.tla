------------------------------- MODULE LogText -------------------------------
(* The text of the log: each logged value is an assignment of Octave, the   *)
(* value of the variable is the logged value. Names are composed of parts,  *)
(* elements of lists have indices (starting with 1). Each step of a         *)
(* behaviour logs values or an object of the library; the stream of the     *)
(* logger is replaced between the steps.                                    *)
EXTENDS Mat
CONSTANTS SeedLo, SeedHi, MaxOps

VARIABLES seed, n, log
vars == <<seed, n, log>>
R(i, lo, hi) == RandInt(seed, 900 * n + i, lo, hi)

\* --------------------------------------------------------------- names
Words == <<"m", "state", "a_b", "x1", "tasks", "H", "Q_", "very_long_name_of_a_variable">>
Word(i) == RandOf(Words, seed, 900 * n + i)
\* a part: a word (may be empty) or an index
Part(i) == CASE R(i, 1, 10) <= 5 -> [t |-> "word", s |-> Word(i + 1), cstr |-> R(i + 2, 1, 2) = 1]
             [] R(i, 1, 10) = 6 -> [t |-> "word", s |-> "", cstr |-> R(i + 2, 1, 2) = 1]
             [] OTHER -> [t |-> "index", k |-> IF R(i + 1, 1, 4) = 1 THEN R(i + 2, 9, 12000) ELSE R(i + 2, 0, 3)]
Parts(i, m) == [k \in 1..m |-> Part(i + 5 * k)]
Join(name, part) == IF part.t = "index" THEN name \o "{" \o ToString(part.k + 1) \o "}"
                    ELSE IF part.s = "" THEN name ELSE IF name = "" THEN part.s ELSE name \o "." \o part.s
RECURSIVE Name(_, _)
Name(first, parts) == IF parts = <<>> THEN first ELSE Join(Name(first, SubSeq(parts, 1, Len(parts) - 1)), parts[Len(parts)])

\* -------------------------------------------------------------- values
Num1(i) == CASE R(i, 1, 12) <= 6 -> Q(R(i + 1, -20, 20), 1)
             [] R(i, 1, 12) <= 10 -> Q(R(i + 1, -30000, 30000), R(i + 2, 1, 97))
             [] R(i, 1, 12) = 11 -> [n |-> R(i + 1, 0, 1), d |-> 1000003]
             [] OTHER -> QZero
Special(i) == CASE R(i, 1, 40) = 1 -> [n |-> 0, d |-> 0] [] R(i, 1, 40) = 2 -> [n |-> 1, d |-> 0] [] R(i, 1, 40) = 3 -> [n |-> -1, d |-> 0]
                [] OTHER -> Num1(i)
RandMat(i, r, c) == [a \in 1..r |-> [b \in 1..c |-> Special(i + 4 * (5 * a + b))]]
IntMat(i, r, c) == [a \in 1..r |-> [b \in 1..c |-> R(i + 5 * a + b, -2000, 2000)]]
NatMat(i, r, c) == [a \in 1..r |-> [b \in 1..c |-> R(i + 5 * a + b, 0, 2000)]]
Texts == <<"", "a", "two words", "100%", "[1, 2];", "x = 1;", "it's", "''", "a \"b\"", "...", "T_1.b{2}">>
Transposed(M, c) == [j \in 1..c |-> [i \in 1..Len(M) |-> M[i][j]]]
Sub(M, r0, c0, r, c) == [i \in 1..r |-> [j \in 1..c |-> M[r0 + i][c0 + j]]]
\* an Octave matrix without elements
Shape(M) == IF M = <<>> \/ M[1] = <<>> THEN <<>> ELSE M

Value(i) ==
    LET kind == RandOf(<<"int", "unsigned", "size", "double", "double", "bool", "string", "cstr", "chars", "vint", "vdouble", "vunsigned",
                         "VectorXd", "RowVectorXd", "MatrixXd", "MatrixXd", "MatrixXi", "Matrix3d", "RowMajor", "block", "fixedblock", "transpose",
                         "map", "array", "sum", "constant", "col", "row", "segment", "Vector3d">>, seed, 900 * n + i)
        r == R(i + 1, 0, 4) c == R(i + 2, 0, 4)
        M == RandMat(i + 10, r, c)
        K == [kind |-> kind]
        Mx(rows, cols, A) == [kind |-> kind, r |-> rows, c |-> cols, M |-> A]
        Out(v, e) == [v |-> v, exp |-> e]
    IN CASE kind = "int" -> LET x == R(i + 3, -200000, 200000) IN Out([kind |-> kind, x |-> x], <<<<x>>>>)
         [] kind \in {"unsigned", "size"} -> LET x == R(i + 3, 0, 2000000) IN Out([kind |-> kind, x |-> x], <<<<x>>>>)
         [] kind = "double" -> LET x == Special(i + 3) IN Out([kind |-> kind, x |-> x], <<<<x>>>>)
         [] kind = "bool" -> LET x == R(i + 3, 0, 1) IN Out([kind |-> kind, x |-> x], <<<<x>>>>)
         [] kind \in {"string", "cstr", "chars"} -> LET x == RandOf(Texts, seed, 900 * n + i + 3) IN Out([kind |-> kind, x |-> x], x)
         [] kind = "vint" -> LET A == IntMat(i + 10, r, 1) IN Out(Mx(r, 1, A), A)
         [] kind = "vunsigned" -> LET A == NatMat(i + 10, r, 1) IN Out(Mx(r, 1, A), A)
         [] kind = "vdouble" -> LET A == RandMat(i + 10, r, 1) IN Out(Mx(r, 1, A), A)
         [] kind = "VectorXd" -> LET A == RandMat(i + 10, r, 1) IN Out(Mx(r, 1, A), A)
         [] kind = "Vector3d" -> LET A == RandMat(i + 10, 3, 1) IN Out(Mx(3, 1, A), A)
         [] kind = "RowVectorXd" -> LET A == RandMat(i + 10, 1, c) IN Out(Mx(1, c, A), Shape(A))
         [] kind = "MatrixXi" -> LET A == IntMat(i + 10, r, c) IN Out(Mx(r, c, A), Shape(A))
         [] kind = "Matrix3d" -> LET A == RandMat(i + 10, 3, 3) IN Out(Mx(3, 3, A), A)
         [] kind \in {"MatrixXd", "RowMajor", "map", "array"} -> Out(Mx(r, c, M), Shape(M))
         [] kind = "transpose" -> Out(Mx(r, c, M), Shape(Transposed(M, c)))
         \* parts of a matrix
         [] kind = "block" -> LET h == R(i + 3, 0, r) w == R(i + 4, 0, c) r0 == R(i + 5, 0, r - h) c0 == R(i + 6, 0, c - w) IN
                Out([kind |-> kind, r |-> r, c |-> c, M |-> M, r0 |-> r0, c0 |-> c0, h |-> h, w |-> w], Shape(Sub(M, r0, c0, h, w)))
         [] kind = "fixedblock" -> LET A == RandMat(i + 10, 3, 3) h == R(i + 3, 0, 3) w == R(i + 4, 0, 3) r0 == R(i + 5, 0, 3 - h) c0 == R(i + 6, 0, 3 - w) IN
                Out([kind |-> kind, r |-> 3, c |-> 3, M |-> A, r0 |-> r0, c0 |-> c0, h |-> h, w |-> w], Shape(Sub(A, r0, c0, h, w)))
         [] kind = "segment" -> LET A == RandMat(i + 10, r, 1) h == R(i + 3, 0, r) r0 == R(i + 5, 0, r - h) IN
                Out([kind |-> kind, r |-> r, c |-> 1, M |-> A, r0 |-> r0, h |-> h], Sub(A, r0, 0, h, 1))
         [] kind = "col" -> LET A == RandMat(i + 10, r, c + 1) k == R(i + 3, 0, c) IN Out([kind |-> kind, r |-> r, c |-> c + 1, M |-> A, k |-> k], Sub(A, 0, k, r, 1))
         [] kind = "row" -> LET A == RandMat(i + 10, r + 1, c) k == R(i + 3, 0, r) IN Out([kind |-> kind, r |-> r + 1, c |-> c, M |-> A, k |-> k], Shape(Sub(A, k, 0, 1, c)))
         [] kind = "sum" -> LET A == IntMat(i + 10, r, c) B == IntMat(i + 60, r, c) IN
                Out([kind |-> kind, r |-> r, c |-> c, M |-> A, N |-> B], Shape([a \in 1..r |-> [b \in 1..c |-> A[a][b] + B[a][b]]]))
         [] kind = "constant" -> LET x == Num1(i + 3) IN Out([kind |-> kind, r |-> r, c |-> c, M |-> <<>>, x |-> x], Shape([a \in 1..r |-> [b \in 1..c |-> x]]))

AsObject(es) == [x \in {es[i][1] : i \in DOMAIN es} |-> es[CHOOSE i \in DOMAIN es : es[i][1] = x][2]]
Distinct(es) == Cardinality({es[i][1] : i \in DOMAIN es}) = Len(es)
Exp(es) == IF es = <<>> THEN [repeated |-> 0] ELSE [entries |-> AsObject(es), repeated |-> 0]
Target == RandOf(<<"stream", "stream", "file">>, seed, 900 * n + 899)
Put(rec) == log' = Append(log, rec)

Init == seed \in SeedLo..SeedHi /\ n = 0 /\ log = <<>>

\* values with names derived from a common one; names which are already used are left out
Entries ==
    LET first == Word(1) shared == Parts(10, R(2, 0, 2)) m == R(3, 1, 4)
        own == [k \in 1..m |-> Parts(100 * k, R(30 + k, 0, 3))]
        val == [k \in 1..m |-> Value((100 * k) + 30)]
        es == [k \in 1..m |-> <<Name(Name(first, shared), own[k]), val[k].exp>>]
    IN IF Distinct(es)
       THEN Put([op |-> "entries", target |-> Target, first |-> first, cstr |-> R(4, 1, 2) = 1, shared |-> shared, own |-> own,
                 values |-> [k \in 1..m |-> val[k].v], exp |-> Exp(es)])
       ELSE Put([op |-> "entries", target |-> Target, first |-> first, cstr |-> FALSE, shared |-> <<>>, own |-> <<<<>>>>, values |-> <<val[1].v>>,
                 exp |-> Exp(<<<<first, val[1].exp>>>>)])

\* objects: fields with names, the fields of a part of an object are preceded by the name of the part
V(i, r) == RandMat(i, r, 1)
S(i) == <<<<Num1(i)>>>>
I(i, m) == <<<<R(i, 0, m)>>>>
PointMass(p, i) == <<<<p \o ".position", V(i, 3)>>, <<p \o ".velocity", V(i + 20, 3)>>, <<p \o ".acceleration", V(i + 40, 3)>>>>
Rotary(p, i) == <<<<p \o ".rpy", V(i, 3)>>, <<p \o ".angular_velocity", V(i + 20, 3)>>, <<p \o ".angular_acceleration", V(i + 40, 3)>>>>
Rigid(p, i) == PointMass(p, i) \o Rotary(p, i + 60)
M2(i) == RandMat(i, 2, 2)
StanceE(p, i) == <<<<p \o ".type", I(i, 5)>>, <<p \o ".previous_nonds_stance_type", I(i + 1, 5)>>, <<p \o ".previous_nontds_stance_type", I(i + 2, 5)>>,
                   <<p \o ".subtype", I(i + 3, 2)>>, <<p \o ".duration_ms", I(i + 4, 30000)>>, <<p \o ".total_duration_ms", I(i + 5, 30000)>>>>
WalkState(p, i) == <<<<p \o ".theta", S(i)>>, <<p \o ".step_height", S(i + 4)>>, <<p \o ".cvel_ref", V(i + 8, 2)>>, <<p \o ".rotation", M2(i + 50)>>,
                     <<p \o ".R_cvel_ref", V(i + 100, 2)>>, <<p \o ".fd_bounds", M2(i + 150)>>, <<p \o ".cop_bounds", M2(i + 200)>>>>
                   \o StanceE(p \o ".stance", i + 250)
WalkInterval(p, i) == <<<<p \o ".state_index", I(i, 20)>>, <<p \o ".omega", S(i + 1)>>, <<p \o ".T", S(i + 5)>>, <<p \o ".cvel_ref", V(i + 10, 2)>>>>
MPCInterval(p, i) ==
    <<<<p \o ".base_height", S(i)>>, <<p \o ".body_height", S(i + 4)>>, <<p \o ".base_mass", S(i + 8)>>, <<p \o ".body_mass", S(i + 12)>>,
      <<p \o ".T", S(i + 16)>>, <<p \o ".T_ms", I(i + 20, 3000)>>, <<p \o ".base_vel_ref", V(i + 30, 2)>>, <<p \o ".base_pos_ref", V(i + 60, 2)>>,
      <<p \o ".theta", S(i + 90)>>, <<p \o ".rotation", M2(i + 100)>>, <<p \o ".body_bounds", M2(i + 150)>>, <<p \o ".cop_bounds", M2(i + 200)>>,
      <<p \o ".nominal_base_velocity_bounds", M2(i + 250)>>, <<p \o ".nominal_base_acceleration_bounds", M2(i + 300)>>>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
\* matrices of the controllers which predict a walk and motions of a wheeled robot
MPCNames == [mpcwpg |-> <<"R", "Rh", "V", "V0", "Vfp", "vfp", "S", "s", "Sdz", "sdz", "cop_profile", "dcop_profile", "cstate_profile", "footpos_profile">>,
             mpcmg |-> <<"R", "S", "s", "sp", "Ap", "sas", "Aas", "sps", "Aps", "sjs", "Ajs", "base_controls", "body_controls",
                         "cstate_profile", "jerk_profile", "cop_profile">>]
MPCVectors == {"s", "sp", "sas", "sps", "sjs", "base_controls", "body_controls", "cstate_profile", "jerk_profile", "cop_profile", "dcop_profile", "footpos_profile"}
MPCMatrix(p, kind, k) ==
    LET name == MPCNames[kind][k]
        \* (blocks of 2 x 2 on the diagonal)
        diag == name \in {"R", "Rh"}
        rows == IF diag THEN 2 * R(3, 1, 3) ELSE 1 + (k % 3)
        cols == IF diag THEN 2 * R(3, 1, 3) ELSE IF (kind = "mpcmg" /\ name \in MPCVectors) \/ name \in {"cop_profile", "dcop_profile", "cstate_profile", "footpos_profile"} THEN 1 ELSE 1 + ((k + R(3, 0, 3)) % 3)
        M == RandMat(400 + (30 * k), rows, cols)
    IN <<p \o "." \o name, IF ~diag THEN M ELSE [a \in 1..rows |-> [b \in 1..rows |-> IF (a + 1) \div 2 = (b + 1) \div 2 THEN M[a][b] ELSE QZero]]>>
MPCMatrices(p, kind) == [k \in 1..Len(MPCNames[kind]) |-> MPCMatrix(p, kind, k)]
\* models of robots: the state and quantities derived from it
CoM(pm) == [k \in 1..6 |-> <<pm[1 + ((k - 1) % 3)][2][1 + ((k - 1) \div 3)][1]>>]     \* x, x', x'', y, y', y''
Foot(p, i) == <<<<p \o ".position", IntMat(i, 3, 1)>>>> \o Tail(Rigid(p, i))
FootSizes(p) == <<<<p \o ".max_step_len", S(10)>>, <<p \o ".min_feet_dist", S(14)>>, <<p \o ".max_feet_dist", S(18)>>,
                  <<p \o ".feet_dist_default", S(22)>>, <<p \o ".foot_length", S(26)>>, <<p \o ".foot_width", S(30)>>>>
WpgModel(p) ==
    LET com == PointMass(p \o ".state.com_state", 60) l == Foot(p \o ".state.left_foot_state", 150) r == Foot(p \o ".state.right_foot_state", 350)
    IN FootSizes(p \o ".foot_parameters")
       \o <<<<p \o ".state.stance_type", <<<<1>>>>>>, <<p \o ".state.next_stance_type", I(5, 4)>>>> \o com \o l \o r
       \o <<<<p \o ".cstate", CoM(com)>>, <<p \o ".current_support_position", [k \in 1..2 |-> <<Q(l[1][2][k][1] + r[1][2][k][1], 2)>>]>>>>
PepperModel(p) ==
    LET base == Rigid(p \o ".state.base_state", 12) body == PointMass(p \o ".state.body_state", 200)
    IN <<<<p \o ".state.base_mass", S(4)>>, <<p \o ".state.body_mass", S(8)>>>> \o base \o body
       \o <<<<p \o ".mpc_state", CoM(base) \o CoM(body)>>, <<p \o ".current_base_position", SubSeq(base[1][2], 1, 2)>>>>
Indexed(p, k) == p \o "{" \o ToString(k) \o "}"
Object ==
    LET kind == RandOf(<<"location", "pointmass", "rotary", "rigidbody", "pose", "stance", "foot", "solution", "walkstate", "walkstate", "wpgstate",
                         "pepperstate", "horizon", "wpghorizon", "mpcwpg", "mpcmg", "wpgmodel", "peppermodel">>, seed, 900 * n)
        name == Word(1)
        nested == R(2, 1, 2) = 1
        p == IF nested THEN "top." \o name ELSE name
        len == R(3, 0, 3)
        horizon(q) == Flatten([k \in 1..len |-> MPCInterval(Indexed(q \o ".interval", k), 10 + (250 * (k - 1)))])
        wpghorizon(q) == <<<<q \o ".variable_steps_indices", NatMat(880, R(6, 0, 4), 1)>>>> \o Flatten([k \in 1..len |-> WalkInterval(Indexed(q \o ".interval", k), 10 + (250 * (k - 1)))])
                                          \o Flatten([k \in 1..R(4, 0, 2) |-> WalkState(Indexed(q \o ".state", k), 300 + (250 * (k - 1)))])
        \* ("preview_horizon" is the default name of horizons)
        es == CASE kind = "location" -> <<<<p \o ".offset", I(10, 50)>>, <<p \o ".length", I(11, 50)>>>>
                [] kind = "pointmass" -> PointMass(p, 10)
                [] kind = "rotary" -> Rotary(p, 10)
                [] kind = "rigidbody" -> Rigid(p, 10)
                [] kind = "pose" -> <<<<p \o ".position", V(10, 3)>>, <<p \o ".rpy", V(30, 3)>>>>
                [] kind = "stance" -> StanceE(p, 10)
                [] kind = "foot" -> <<<<p \o ".max_step_len", S(10)>>, <<p \o ".min_feet_dist", S(14)>>, <<p \o ".max_feet_dist", S(18)>>,
                                      <<p \o ".feet_dist_default", S(22)>>, <<p \o ".foot_length", S(26)>>, <<p \o ".foot_width", S(30)>>>>
                [] kind = "solution" -> <<<<p \o ".x", V(10, len)>>, <<p \o ".status", I(9, 3)>>>>
                [] kind = "walkstate" -> WalkState(p, 10)
                [] kind = "wpgstate" -> <<<<p \o ".stance_type", I(4, 5)>>, <<p \o ".next_stance_type", I(5, 5)>>>> \o PointMass(p \o ".com_state", 10)
                                        \o Rigid(p \o ".left_foot_state", 100) \o Rigid(p \o ".right_foot_state", 300)
                [] kind = "pepperstate" -> <<<<p \o ".base_mass", S(4)>>, <<p \o ".body_mass", S(8)>>>> \o Rigid(p \o ".base_state", 12) \o PointMass(p \o ".body_state", 200)
                [] kind = "wpgmodel" -> WpgModel(p)
                [] kind = "peppermodel" -> PepperModel(p)
                [] kind = "horizon" -> horizon(p)
                [] kind = "wpghorizon" -> wpghorizon(p)
                [] kind = "mpcwpg" -> wpghorizon(p \o ".preview_horizon") \o MPCMatrices(p, kind)
                [] kind = "mpcmg" -> horizon(p \o ".preview_horizon") \o MPCMatrices(p, kind)
    IN Put([op |-> "object", target |-> Target, kind |-> kind, name |-> name, nested |-> nested, p |-> p, fields |-> AsObject(es),
            len |-> IF kind \in {"horizon", "wpghorizon", "mpcwpg", "mpcmg", "solution"} THEN len ELSE 0,
            len2 |-> IF kind \in {"wpghorizon", "mpcwpg"} THEN R(4, 0, 2) ELSE 0, exp |-> Exp(es)])

\* values without names: one line each
Raw ==
    LET m == R(1, 1, 4)
        \* (an empty line can not be told from the end of the text)
        ts == [k \in 1..m |-> [kind |-> RandOf(<<"string", "cstr", "int", "double", "row">>, seed, 900 * n + 10 * k), x |-> R(10 * k + 1, -30000, 30000),
                               text |-> RandOf(SubSeq(Texts, 2, Len(Texts)), seed, (900 * n) + (10 * k) + 2)]]
    IN Put([op |-> "raw", target |-> Target, items |-> ts,
            exp |-> [lines |-> [k \in 1..m |-> CASE ts[k].kind \in {"string", "cstr"} -> ts[k].text
                                                 [] ts[k].kind = "row" -> ToString(ts[k].x) \o " " \o ToString(ts[k].x + 1)
                                                 [] OTHER -> ToString(ts[k].x)]]])

Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED seed
        /\ CASE R(0, 1, 10) <= 5 -> Entries
             [] R(0, 1, 10) <= 9 -> Object
             [] OTHER -> Raw
Spec == Init /\ [][Next]_vars

\* different variables for different data
NamesOK == \A i \in DOMAIN log : log[i].op = "object" => Cardinality(DOMAIN log[i].fields) =
    (CASE log[i].kind = "location" -> 2 [] log[i].kind \in {"pointmass", "rotary"} -> 3 [] log[i].kind \in {"rigidbody", "stance", "foot"} -> 6
       [] log[i].kind \in {"pose", "solution"} -> 2 [] log[i].kind = "walkstate" -> 13 [] log[i].kind = "wpgstate" -> 17 [] log[i].kind = "pepperstate" -> 11
       [] log[i].kind = "wpgmodel" -> 25 [] log[i].kind = "peppermodel" -> 13
       [] log[i].kind = "horizon" -> 14 * log[i].len [] log[i].kind = "wpghorizon" -> 1 + 4 * log[i].len + 13 * log[i].len2
       [] log[i].kind = "mpcmg" -> 16 + 14 * log[i].len [] log[i].kind = "mpcwpg" -> 15 + 4 * log[i].len + 13 * log[i].len2)
Emit == n = MaxOps => EmitCase([machine |-> "logtext", seed |-> seed, steps |-> log, tol |-> [digits |-> 13]])
=============================================================================
