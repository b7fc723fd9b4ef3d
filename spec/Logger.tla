------------------------------- MODULE Logger -------------------------------
(* The logger with a thread of its own: threads put messages in a queue, the *)
(* processor thread of the logger writes them to the current stream, which   *)
(* may be replaced while messages are logged. One step of a thread is what   *)
(* it does between two points of synchronization (operations with the mutex, *)
(* output, sleep, creation and termination of threads).                      *)
EXTENDS Num, Sequences, FiniteSets, SequencesExt
CONSTANTS SeedLo, SeedHi, MaxSteps,
          Mode,          \* "all": all schedules, "seeded": a schedule for each seed
          NumProducers, NumMessages,  \* of the exhaustively explored scenario
          Burst                       \* maximal number of messages logged at once (0: a few)

VARIABLES seed, n,
    prog, producers,     \* what is executed: operations of the controlling thread, messages of the others
    c,                   \* controlling thread: index of the operation, stage of it
    p,                   \* other threads: index of the message, stage; 0: not started
    l,                   \* processor thread: stage, number of messages to write, stop, message
    queue, interrupted, strm,
    pushed, out,         \* history: all messages in the order of insertion; <<stream, message>>
    mark,                \* number of messages inserted before the last interruption
    sleeps,              \* the controller waits until the processor slept this number of times
    sched, last
vars == <<seed, n, prog, producers, c, p, l, queue, interrupted, strm, pushed, out, mark, sleeps, sched, last>>
\* ---------------------------------------------------------- scenarios
R(i, lo, hi) == RandInt(seed, i, lo, hi)
Op(o) == [op |-> o]
NewStream(o, k, kind) == [op |-> o, s |-> k, kind |-> kind]
Kind(i) == IF R(i, 1, 3) = 1 THEN "file" ELSE "stream"
Log(id) == [op |-> "log", id |-> id]
\* many messages: the queue becomes long
Some(i, first) == [op |-> "burst", from |-> first * 10000, num |-> R(i + 80, 1, IF R(i + 100, 1, 4) = 1 THEN Burst ELSE 1 + (Burst \div 8))]
Logs(i, first) == IF Burst > 0 /\ R(i + 120, 1, 2) = 1 THEN <<Some(i, first)>> ELSE [k \in 1..R(i, 0, 3) |-> Log(first + k)]
Idle == IF R(70, 1, 2) = 1 THEN <<Op("idle")>> ELSE <<>>
\* a failed attempt leaves the logger without a stream, another one follows
Replace(i, k) == (IF R(i, 1, 6) = 1 THEN <<NewStream("init", 10 + k, "bad")>> \o Logs(i + 3, 500 + 10 * k) ELSE <<>>)
                 \o (IF R(i + 1, 1, 12) = 1 THEN <<NewStream("init", 20 + k, "bad")>> ELSE <<>>) \o <<NewStream("init", k, Kind(i + 2))>>
\* identifiers of messages are positive
RandomProg ==
    (IF R(1, 1, 3) = 1 THEN <<NewStream("create", 0, "none")>> \o Logs(2, 600) \o <<NewStream("init", 1, Kind(3))>>
     ELSE <<NewStream("create", 1, Kind(3))>>)
    \o Logs(4, 610) \o Idle
    \o (IF R(5, 1, 8) = 1 THEN Replace(40, 2) ELSE <<>>)
    \o <<Op("start")>> \o Logs(6, 620)
    \o (IF R(7, 1, 2) = 1 THEN Replace(8, 3) \o Logs(12, 630) ELSE <<>>)
    \o (IF R(13, 1, 4) = 1 THEN Replace(14, 4) ELSE <<>>)
    \o <<Op("join")>> \o (IF R(17, 1, 2) = 1 THEN Idle ELSE <<>>)
    \o (IF R(18, 1, 6) = 1 THEN Replace(50, 5) ELSE <<>>)
    \o Logs(19, 640) \o <<Op("destroy")>>
RandomProducers == [k \in 1..R(20, 0, 3) |-> [j \in 1..R(20 + k, 0, 4) |-> 16 + (10 * k) + j + (100 * R(30 + 5 * k + j, 0, 1))]]
SmallProg == <<NewStream("create", 0, "none"), Log(1), NewStream("init", 1, "stream"), Op("start"), Log(2), NewStream("init", 3, "bad"),
               NewStream("init", 2, "stream"), Op("join"), Log(3), Op("idle"), Op("destroy")>>

Init == /\ seed \in SeedLo..SeedHi /\ n = 0
        /\ prog = IF Mode = "all" THEN SmallProg ELSE RandomProg
        /\ producers = IF Mode = "all" THEN [k \in 1..NumProducers |-> [j \in 1..NumMessages |-> (10 * k) + j]] ELSE RandomProducers
        /\ c = [i |-> 1, stage |-> "begin"]
        /\ p = [k \in 1..Len(producers) |-> [i |-> 0, stage |-> "lock"]]
        /\ l = [stage |-> "none", num |-> 0, stop |-> FALSE, msg |-> 0]
        /\ queue = <<>> /\ interrupted = TRUE /\ strm = 0
        /\ pushed = <<>> /\ out = <<>> /\ mark = 0 /\ sleeps = 0 /\ sched = <<>> /\ last = "C"

\* ----------------------------------------------------------- processor
LStep ==
    /\ l.stage \notin {"none", "done"}
    /\ CASE l.stage = "start" -> l' = [l EXCEPT !.stop = interrupted, !.stage = "size"] /\ UNCHANGED <<queue, out, sleeps>>
         [] l.stage = "size" -> l' = [l EXCEPT !.num = Len(queue), !.stage = "test"] /\ UNCHANGED <<queue, out, sleeps>>
         [] l.stage = "test" -> /\ l' = [l EXCEPT !.stage = IF l.num > 0 THEN "pop" ELSE IF l.stop THEN "done" ELSE "start"]
                                /\ sleeps' = IF l.num = 0 /\ ~l.stop /\ sleeps > 0 THEN sleeps - 1 ELSE sleeps
                                /\ UNCHANGED <<queue, out>>
         [] l.stage = "pop" -> l' = [l EXCEPT !.msg = queue[1], !.stage = "write"] /\ queue' = Tail(queue) /\ UNCHANGED <<out, sleeps>>
         [] l.stage = "write" -> l' = [l EXCEPT !.msg = 0, !.num = @ - 1, !.stage = IF l.num > 1 THEN "pop" ELSE "flush"]
                                 /\ out' = Append(out, <<strm, l.msg>>) /\ UNCHANGED <<queue, sleeps>>
         [] l.stage = "flush" -> l' = [l EXCEPT !.stage = IF l.stop THEN "done" ELSE "start"] /\ UNCHANGED <<queue, out, sleeps>>
    /\ UNCHANGED <<c, p, interrupted, strm, pushed, mark>>

\* ----------------------------------------------------------- producers
Push(id) == queue' = Append(queue, id) /\ pushed' = Append(pushed, id)
PStep(k) ==
    /\ p[k].i > 0 /\ p[k].i <= Len(producers[k])
    /\ IF p[k].stage = "lock"
       THEN Push(producers[k][p[k].i]) /\ p' = [p EXCEPT ![k].stage = "unlocked"]
       ELSE p' = [p EXCEPT ![k].i = @ + 1, ![k].stage = "lock"] /\ UNCHANGED <<queue, pushed>>
    /\ UNCHANGED <<c, l, interrupted, strm, out, mark, sleeps>>
PDone(k) == p[k].i > Len(producers[k])

\* ---------------------------------------------------------- controller
Cur == prog[c.i]
Done == c.i > Len(prog)
Advance == c' = [i |-> c.i + 1, stage |-> "begin"]
Interrupt == /\ interrupted' = TRUE /\ mark' = IF interrupted THEN mark ELSE Len(pushed)
             /\ c' = [c EXCEPT !.stage = "joining"]
             /\ UNCHANGED <<p, l, queue, strm, pushed, out, sleeps>>
\* the thread is over (or there is none): with the new stream a new thread is started
Resume(k) == /\ strm' = k
             /\ interrupted' = (k = 0)
             /\ l' = IF k = 0 THEN [l EXCEPT !.stage = "none"] ELSE [stage |-> "start", num |-> 0, stop |-> FALSE, msg |-> 0]
             /\ Advance
             /\ UNCHANGED <<p, queue, pushed, out, mark, sleeps>>
CReady == ~Done /\
    CASE c.stage = "joining" -> l.stage \in {"none", "done"}
      [] Cur.op = "join" -> \A k \in DOMAIN p : PDone(k)
      [] c.stage = "waiting" -> sleeps = 0
      [] OTHER -> TRUE
CStep ==
    /\ CReady
    /\ CASE Cur.op \in {"create", "init"} ->
              IF Cur.op = "create" \/ c.stage = "joining" THEN Resume(IF Cur.kind \in {"bad", "none"} THEN 0 ELSE Cur.s) ELSE Interrupt
         [] Cur.op = "destroy" -> IF c.stage = "joining" THEN Advance /\ l' = [l EXCEPT !.stage = "none"] /\ UNCHANGED <<p, queue, interrupted, strm, pushed, out, mark, sleeps>> ELSE Interrupt
         [] Cur.op = "log" ->
              IF c.stage = "begin" THEN Push(Cur.id) /\ c' = [c EXCEPT !.stage = "unlocked"] /\ UNCHANGED <<p, l, interrupted, strm, out, mark, sleeps>>
              ELSE Advance /\ UNCHANGED <<p, l, queue, interrupted, strm, pushed, out, mark, sleeps>>
         [] Cur.op = "burst" -> LET ids == [k \in 1..Cur.num |-> Cur.from + k]
                                IN queue' = queue \o ids /\ pushed' = pushed \o ids /\ Advance /\ UNCHANGED <<p, l, interrupted, strm, out, mark, sleeps>>
         [] Cur.op = "start" -> /\ p' = [k \in DOMAIN p |-> [i |-> 1, stage |-> "lock"]] /\ Advance
                                /\ UNCHANGED <<l, queue, interrupted, strm, pushed, out, mark, sleeps>>
         [] Cur.op = "join" -> Advance /\ UNCHANGED <<p, l, queue, interrupted, strm, pushed, out, mark, sleeps>>
         [] Cur.op = "idle" ->
              IF c.stage = "begin" THEN sleeps' = 2 /\ c' = [c EXCEPT !.stage = "waiting"] /\ UNCHANGED <<p, l, queue, interrupted, strm, pushed, out, mark>>
              ELSE Advance /\ UNCHANGED <<p, l, queue, interrupted, strm, pushed, out, mark, sleeps>>

\* ------------------------------------------------------------ schedule
PName(k) == "P" \o ToString(k)
Enabled == (IF CReady THEN <<"C">> ELSE <<>>)
           \o (IF l.stage \notin {"none", "done"} THEN <<"L">> ELSE <<>>)
           \o FlattenSeq([k \in DOMAIN p |-> IF p[k].i > 0 /\ ~PDone(k) THEN <<PName(k)>> ELSE <<>>])
In(x, s) == \E i \in DOMAIN s : s[i] = x
\* a thread runs for a while; how long depends on the seed
Choice == IF In(last, Enabled) /\ RandInt(seed, 1000 + 2 * n, 1, 10) <= R(60, 0, 9) THEN last
          ELSE LET e == IF Len(Enabled) > 1 /\ R(61, 1, 2) = 1 THEN SelectSeq(Enabled, LAMBDA x : x # last) ELSE Enabled
               IN e[RandInt(seed, 1001 + 2 * n, 1, Len(e))]
Run(t) == \/ t = "C" /\ CStep
          \/ t = "L" /\ LStep
          \/ \E k \in DOMAIN p : t = PName(k) /\ PStep(k)
Next == /\ Enabled # <<>> /\ n < MaxSteps
        /\ UNCHANGED <<seed, prog, producers>>
        /\ IF Mode = "all" THEN UNCHANGED <<n, sched, last>> /\ \E i \in DOMAIN Enabled : Run(Enabled[i])
           ELSE Run(Choice) /\ n' = n + 1 /\ sched' = Append(sched, Choice) /\ last' = Choice
Fair == /\ WF_vars(Next /\ CStep) /\ WF_vars(Next /\ LStep) /\ \A k \in 1..NumProducers : WF_vars(Next /\ k \in DOMAIN p /\ PStep(k))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

\* --------------------------------------------------------- invariants
Written == [i \in 1..Len(out) |-> out[i][2]]
InHand == IF l.msg = 0 THEN <<>> ELSE <<l.msg>>
\* nothing is lost, duplicated or reordered
NoLoss == Written \o InHand \o queue = pushed
\* what was logged before the stream is replaced or the logger is destroyed is written to the old stream
Drained == (l.stage \in {"none", "done"} /\ interrupted) => Len(out) >= mark
StreamOK == \A i \in DOMAIN out : out[i][1] # 0
\* streams follow each other
StreamOrder == \A i, j \in DOMAIN out : i < j => out[i][1] <= out[j][1]
\* the processor writes what is in the queue without being asked to
IdleOK == (~Done /\ c.stage = "waiting" /\ sleeps = 0 /\ \A k \in DOMAIN p : p[k].i = 0 \/ PDone(k)) => Len(out) = Len(pushed)
DestroyOK == Done => queue = <<>> /\ l.msg = 0
\* no thread waits forever
Progress == <>Done
Emit == (Mode = "seeded" /\ (n = MaxSteps \/ Enabled = <<>>)) =>
    EmitCase([machine |-> "logger", seed |-> seed, steps |-> <<[op |-> "run", prog |-> [i \in 1..Len(prog) |-> IF prog[i].op = "idle" THEN [op |-> "idle"] ELSE prog[i]],
              producers |-> producers, sched |-> sched, sleep |-> IF Burst > 0 /\ R(140, 1, 2) = 1 THEN 20 ELSE 0]>>])
=============================================================================
