---------------------------- MODULE ConfigProblem ----------------------------
(* Hierarchies of tasks which are written to and constructed from           *)
(* configuration files: the tasks, their levels, their identifiers and      *)
(* parameters survive, incomplete or inconsistent descriptions are refused. *)
EXTENDS Num
CONSTANTS SeedLo, SeedHi, MaxOps

VARIABLES seed, n, probs, file, log
vars == <<seed, n, probs, file, log>>
R(i, lo, hi) == RandInt(seed, 700 * n + i, lo, hi)

\* classes of tasks: names of their parameters; simple tasks stay behind the others on a level
G(k) == <<"gain", k>>
Params == [\* known to all hierarchies
           TaskInfeasibleInequality |-> <<"gain">>, TaskZeroVariables |-> <<"gain", "variables_id">>,
           TaskZeroSelectedVariables |-> <<"gain", "variables_indices">>,
           \* walking
           TaskCoPVelocity |-> <<"gain">>, TaskCoMVelocity |-> <<"gain">>,
           TaskCoPPosition |-> <<"gain", "variables_id">>, TaskTerminalConstraint |-> <<"gain">>, TaskFootstepBounds |-> <<"fix_footsteps">>,
           TaskCoPBounds |-> <<>>,
           \* a mobile base
           TaskBaseAccelerationBounds |-> <<"gain">>, TaskBaseJerkMinimization |-> <<"gain">>, TaskBasePositionReference |-> <<"gain">>,
           TaskBaseVelocityBounds |-> <<>>, TaskBaseVelocityReference |-> <<"gain">>, TaskBodyJerkMinimization |-> <<"gain", "variables_id">>,
           TaskBodyPositionBounds |-> <<"gain">>, TaskBodyPositionReference |-> <<"gain">>, TaskCoPCentering |-> <<"gain">>,
           TaskCoPPositionBounds |-> <<"gain">>,
           \* inverse kinematics
           TaskBaseCoMTracking |-> G("k_position_gain"), TaskBaseOrientation |-> G("k_orientation_gain"),
           TaskBodyCoMTracking |-> G("k_position_gain") \o <<"axis_flag">>, TaskFixArms |-> <<>>, TaskFixHead |-> <<>>, TaskJointsBounds |-> <<>>,
           TaskJointsReference |-> G("k_position_gain") \o <<"joint_angles_reference">>,
           TaskTagOrientation |-> G("k_orientation_gain") \o <<"tag_string_id", "reference_rpy">>,
           TaskTagAngularVelocity |-> G("k_angular_velocity_gain") \o <<"tag_string_id">>,
           TaskTagCompleteVelocity |-> G("k_complete_velocity_gain") \o <<"tag_string_id">>,
           TaskTagPose |-> G("k_pose_gain") \o <<"tag_string_id">>, TaskTagPose3Dof |-> G("k_pose_gain") \o <<"tag_string_id">>]
Simple == {"TaskZeroVariables", "TaskZeroSelectedVariables", "TaskCoPPosition", "TaskFootstepBounds", "TaskCoPBounds", "TaskBaseVelocityBounds",
           "TaskBaseVelocityReference", "TaskBodyJerkMinimization", "TaskFixArms", "TaskFixHead", "TaskJointsBounds", "TaskJointsReference"}
Common == <<"TaskInfeasibleInequality", "TaskZeroVariables", "TaskZeroSelectedVariables">>
\* a hierarchy knows the tasks of its module and the common ones
ClassesOf == [core |-> Common,
              walking |-> Common \o <<"TaskZeroVariables", "TaskZeroSelectedVariables", "TaskCoPVelocity", "TaskCoMVelocity", "TaskCoPPosition",
                            "TaskTerminalConstraint", "TaskFootstepBounds", "TaskCoPBounds">>,
              base |-> Common \o <<"TaskBaseAccelerationBounds", "TaskBaseJerkMinimization", "TaskBasePositionReference", "TaskBaseVelocityBounds",
                         "TaskBaseVelocityReference", "TaskBodyJerkMinimization", "TaskBodyPositionBounds", "TaskBodyPositionReference",
                         "TaskCoPCentering", "TaskCoPPositionBounds">>,
              inverse |-> Common \o <<"TaskBaseCoMTracking", "TaskBaseOrientation", "TaskBodyCoMTracking", "TaskFixArms", "TaskFixHead",
                            "TaskJointsBounds", "TaskJointsReference", "TaskTagOrientation", "TaskTagAngularVelocity",
                            "TaskTagCompleteVelocity", "TaskTagPose", "TaskTagPose3Dof">>]
\* modules of the two hierarchies: usually the same
Modules == LET w == RandInt(seed, 90001, 1, 4) z == RandInt(seed, 90002, 1, 12) names == <<"walking", "base", "inverse", "core">> IN
           <<names[w], IF z <= 4 THEN names[z] ELSE names[w]>>
KnownTo(p) == {ClassesOf[Modules[p]][i] : i \in 1..Len(ClassesOf[Modules[p]])}

V(t, v) == [t |-> t, v |-> v]
Num16(i) == V("num", Q(R(i, -400, 400), 16))
Vec(i, len) == V("arr", [j \in 1..len |-> Num16(i + j)])
\* sizes which are known to the class
SizeOf(k) == CASE k = "joint_angles_reference" -> 15 [] k = "reference_rpy" -> 3 [] OTHER -> -1
ParVal(p, i) == CASE p = "variables_id" -> V("str", RandOf(<<"", "CoP", "footpos", "x">>, seed, 700 * n + i))
                  [] p = "tag_string_id" -> V("str", RandOf(<<"", "l_wrist", "CameraTop_frame", "7">>, seed, 700 * n + i))
                  [] p = "variables_indices" -> V("arr", [j \in 1..R(i, 0, 5) |-> V("int", QI(R(i + j, 0, 40)))])
                  [] p = "fix_footsteps" -> V("bool", R(i, 0, 1) = 1)
                  [] p = "axis_flag" -> V("int", QI(R(i, 0, 7)))
                  [] SizeOf(p) # -1 -> Vec(i, SizeOf(p))
                  [] OTHER -> Num16(i)
RandTask(m, id, i) == LET c == RandOf(ClassesOf[m], seed, 700 * n + i) ps == Params[c] IN
    [c |-> c, id |-> id, par |-> [j \in 1..Len(ps) |-> [k |-> ps[j], v |-> ParVal(ps[j], i + 20 * j)]]]

\* a problem: for each level the tasks in the order in which they were added
None == [ok |-> FALSE, levels |-> <<>>]
\* the order of tasks on a level: the last general task first, simple tasks at the end
RECURSIVE OrderOf(_)
OrderOf(l) == IF l = <<>> THEN <<>>
              ELSE LET o == OrderOf(SubSeq(l, 1, Len(l) - 1)) t == l[Len(l)] IN IF t.c \in Simple THEN Append(o, t) ELSE <<t>> \o o
Show(p) == [i \in 1..Len(p.levels) |-> OrderOf(p.levels[i])]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Kv(k, v) == [k |-> k, v |-> v]
StrList(l) == V("arr", [i \in 1..Len(l) |-> V("str", l[i])])
Encode(p) ==
    <<Kv("task_class_names", V("arr", [i \in 1..Len(p.levels) |-> StrList([j \in 1..Len(p.levels[i]) |-> p.levels[i][j].c])])),
      Kv("task_ids", V("arr", [i \in 1..Len(p.levels) |-> StrList([j \in 1..Len(p.levels[i]) |-> p.levels[i][j].id])]))>>
    \o Concat([i \in 1..Len(p.levels) |-> [j \in 1..Len(p.levels[i]) |-> Kv(p.levels[i][j].id, V("map", p.levels[i][j].par))]])
Lookup(map, k) == LET s == SelectSeq(map, LAMBDA q : q.k = k) IN IF s = <<>> THEN V("none", 0) ELSE s[1].v
\* a description is complete and consistent, every task has all its parameters
Good(p, map) ==
    LET cn == Lookup(map, "task_class_names") ids == Lookup(map, "task_ids") IN
    IF cn.t = "none" \/ ids.t = "none" THEN FALSE
    ELSE IF cn.v = <<>> \/ Len(cn.v) # Len(ids.v) THEN FALSE
    ELSE \A i \in 1..Len(cn.v) : IF Len(cn.v[i].v) # Len(ids.v[i].v) THEN FALSE
         ELSE \A j \in 1..Len(cn.v[i].v) : LET c == cn.v[i].v[j].v t == Lookup(map, ids.v[i].v[j].v) IN
              IF c \notin KnownTo(p) \/ t.t # "map" THEN FALSE
              ELSE \A k \in 1..Len(Params[c]) : LET v == Lookup(t.v, Params[c][k]) z == SizeOf(Params[c][k]) IN
                        v.t # "none" /\ (z = -1 \/ (v.t = "arr" /\ Len(v.v) = z))
Decode(map) ==
    LET cn == Lookup(map, "task_class_names").v ids == Lookup(map, "task_ids").v IN
    [ok |-> TRUE, levels |-> [i \in 1..Len(cn) |-> [j \in 1..Len(cn[i].v) |->
        LET c == cn[i].v[j].v ps == Params[c] t == Lookup(map, ids[i].v[j].v).v IN
        [c |-> c, id |-> ids[i].v[j].v, par |-> [k \in 1..Len(ps) |-> Kv(ps[k], Lookup(t, ps[k]))]]]]]

Init == /\ seed \in SeedLo..SeedHi /\ n = 0 /\ probs = <<None, None>> /\ file = <<>>
        /\ log = <<[op |-> "setup", modules |-> Modules, exp |-> [ok |-> TRUE]]>>

Id(p) == "task_" \o ToString(p) \o "_" \o ToString(n)
Build ==
    /\ LET p == R(1, 1, 2) lv == R(2, 1, 4) IN
       IF ~probs[p].ok \/ R(3, 1, 6) = 1
       THEN /\ probs' = [probs EXCEPT ![p] = [ok |-> TRUE, levels |-> [i \in 1..lv |-> <<>>]]]
            /\ log' = Append(log, [op |-> "reset", p |-> p, levels |-> lv, exp |-> [show |-> Show(probs'[p])]])
       ELSE LET l == R(4, 1, Len(probs[p].levels) + (IF R(5, 1, 10) = 1 THEN 1 ELSE 0)) t == RandTask(Modules[p], Id(p), 20) IN
            IF l > Len(probs[p].levels)
            THEN /\ probs' = probs
                 /\ log' = Append(log, [op |-> "push", p |-> p, level |-> l - 1, task |-> t, exp |-> [throws |-> TRUE]])
            ELSE /\ probs' = [probs EXCEPT ![p].levels[l] = Append(@, t)]
                 /\ log' = Append(log, [op |-> "push", p |-> p, level |-> l - 1, task |-> t, exp |-> [show |-> Show(probs'[p])]])
    /\ UNCHANGED file
Write ==
    LET p == R(1, 1, 2) IN
    /\ probs[p].ok
    /\ file' = Encode(probs[p])
    /\ log' = Append(log, [op |-> "write", p |-> p, order |-> file', exp |-> [file |-> file']])
    /\ UNCHANGED probs
Read ==
    LET p == R(6, 1, 2) IN
    /\ file # <<>>
    /\ probs' = [probs EXCEPT ![p] = IF Good(p, file) THEN Decode(file) ELSE None]
    /\ log' = Append(log, [op |-> "read", p |-> p, how |-> R(7, 1, 3), exp |-> IF Good(p, file) THEN [show |-> Show(probs'[p])] ELSE [throws |-> TRUE]])
    /\ UNCHANGED file
\* what a person may do to a file
Drop(m, j) == SubSeq(m, 1, j - 1) \o SubSeq(m, j + 1, Len(m))
Level(m, j) == R(12, 1, Max2(1, Len(m[j].v.v)))
Edit ==
    LET m == file
        j == R(8, 1, Max2(1, Len(m)))
        kind == RandOf(<<"drop", "reverse", "add", "unknown", "shorter", "empty", "parameter", "level", "swap", "size">>, seed, 700 * n + 9)
        isList == m # <<>> /\ (m[j].k = "task_class_names" \/ m[j].k = "task_ids")
        c == {x \in 1..Len(m) : m[x].k = "task_class_names"}
        one == IF c = {} THEN 0 ELSE CHOOSE x \in c : TRUE
        lv == IF one = 0 THEN 0 ELSE Level(m, one)
    IN
    /\ file # <<>>
    /\ file' = CASE kind = "drop" -> Drop(m, j)
                 [] kind = "reverse" -> Reverse(m)
                 [] kind = "add" -> <<Kv("comment", V("str", "text"))>> \o m
                 \* a class which does not exist
                 [] kind = "unknown" -> IF one = 0 THEN m ELSE IF m[one].v.v = <<>> THEN m ELSE IF m[one].v.v[lv].v = <<>> THEN m
                                        ELSE [m EXCEPT ![one].v.v[lv].v[1] = V("str", "TaskWhichDoesNotExist")]
                 [] kind = "shorter" -> IF one = 0 THEN m ELSE IF m[one].v.v = <<>> THEN m ELSE IF m[one].v.v[lv].v = <<>> THEN m
                                        ELSE [m EXCEPT ![one].v.v[lv].v = Tail(@)]
                 [] kind = "level" -> IF isList /\ (IF isList THEN m[j].v.v # <<>> ELSE FALSE) THEN [m EXCEPT ![j].v.v = Tail(@)] ELSE m
                 [] kind = "empty" -> IF isList /\ R(10, 1, 2) = 1 THEN [m EXCEPT ![j].v.v = <<>>] ELSE m
                 \* a parameter of a task disappears
                 [] kind = "parameter" -> IF m[j].v.t = "map" THEN (IF m[j].v.v # <<>> THEN [m EXCEPT ![j].v.v = Tail(@)] ELSE m) ELSE m
                 \* an array loses an element
                 [] kind = "size" -> IF m[j].v.t # "map" THEN m ELSE IF m[j].v.v = <<>> THEN m
                                     ELSE LET q == Len(m[j].v.v) a == m[j].v.v[q] IN
                                          IF SizeOf(a.k) # -1 /\ a.v.t = "arr" /\ (IF a.v.t = "arr" THEN a.v.v # <<>> ELSE FALSE) THEN [m EXCEPT ![j].v.v[q].v.v = Tail(@)] ELSE m
                 [] kind = "swap" -> IF m[j].v.t = "map" /\ Len(m) > 3 THEN <<m[j]>> \o Drop(m, j) ELSE m
    /\ log' = Append(log, [op |-> "edit", file |-> file', exp |-> [ok |-> TRUE]])
    /\ UNCHANGED probs

Next ==
    /\ n < MaxOps
    /\ LET a == R(0, 1, 16) IN
       IF a <= 8 THEN Build
       ELSE IF a <= 11 THEN (IF probs[R(1, 1, 2)].ok THEN Write ELSE Build)
       ELSE IF a <= 14 THEN (IF file # <<>> THEN Read ELSE Build)
       ELSE IF file # <<>> THEN Edit ELSE Build
    /\ n' = n + 1
    /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

\* every problem can be written and read back
RoundTrip == \A p \in 1..2 : probs[p].ok => Good(p, Encode(probs[p])) /\ Decode(Encode(probs[p])) = probs[p]
\* no task is lost, added or duplicated by the rule of ordering
OrderOK == \A p \in 1..2 : probs[p].ok => \A i \in 1..Len(probs[p].levels) :
    LET a == probs[p].levels[i] o == OrderOf(a) IN
    /\ Len(a) = Len(o) /\ {a[j] : j \in 1..Len(a)} = {o[j] : j \in 1..Len(o)}
    /\ \A j \in 2..Len(o) : o[j - 1].c \in Simple => o[j].c \in Simple
Emit == n = MaxOps => EmitCase([machine |-> "problem", seed |-> seed, steps |-> log])
=============================================================================
