----------------------------- MODULE LoggerTrace -----------------------------
(* Recorded executions of the logger: calls and returns of its functions in  *)
(* the order in which they happened and the messages found in each stream.   *)
(* An execution is accepted if it can be explained by a queue of messages    *)
(* which are written to the current stream in the order of insertion.        *)
EXTENDS Num, Sequences, FiniteSets, Json, SequencesExt
CONSTANTS TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, i, pending, queue, cur, pos, phase, target, must
vars == <<t, i, pending, queue, cur, pos, phase, target, must>>
Events == Traces[t].events
\* messages of the stream k
Out(k) == LET o == Traces[t].outs IN IF \E x \in DOMAIN o : o[x].s = k THEN o[CHOOSE x \in DOMAIN o : o[x].s = k].ids ELSE <<>>
StreamsOf(x) == {Traces[x].outs[k].s : k \in DOMAIN Traces[x].outs}

Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ pending = {} /\ queue = <<>> /\ cur = 0 /\ pos = [k \in StreamsOf(t) |-> 0] /\ phase = "run" /\ target = 0 /\ must = {}
Ev == Events[i]
More == i <= Len(Events)
\* Messages are inserted at some time during the call. Nothing is reordered:
\* the order of insertion can only be the one in which they were written.
All == FlattenSeq([k \in DOMAIN Traces[t].outs |-> Traces[t].outs[k].ids])
RECURSIVE Sum(_)
Sum(ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN pos[k] + Sum(ks \ {k})
NextId == LET k == Sum(DOMAIN pos) + Len(queue) + 1 IN IF k <= Len(All) THEN All[k] ELSE 0
Insert == \E id \in pending : /\ id = NextId
                              /\ pending' = pending \ {id} /\ queue' = Append(queue, id)
                              /\ UNCHANGED <<t, i, cur, pos, phase, target, must>>
CanWrite == queue # <<>> /\ cur \in DOMAIN pos /\ pos[cur] < Len(Out(cur)) /\ Out(cur)[pos[cur] + 1] = queue[1]
Write == /\ CanWrite
         /\ queue' = Tail(queue) /\ pos' = [pos EXCEPT ![cur] = @ + 1]
         /\ UNCHANGED <<t, i, pending, cur, phase, target, must>>
\* the stream is replaced when all that was logged before is written
Switch == /\ phase = "init" /\ \A k \in DOMAIN queue : queue[k] \notin must
          /\ phase' = "switched" /\ cur' = target
          /\ UNCHANGED <<t, i, pending, queue, pos, target, must>>
Consume ==
    /\ More /\ i' = i + 1 /\ UNCHANGED <<t, pos>>
    /\ CASE Ev.e = "call" -> pending' = pending \cup {Ev.id} /\ UNCHANGED <<queue, cur, phase, target, must>>
         [] Ev.e = "ret" -> Ev.id \notin pending /\ UNCHANGED <<pending, queue, cur, phase, target, must>>
         [] Ev.e = "init" -> /\ phase = "run" /\ phase' = "init" /\ target' = Ev.s
                             \* (nothing can be required without a stream)
                             /\ must' = IF cur = 0 THEN {} ELSE {queue[k] : k \in DOMAIN queue}
                             /\ UNCHANGED <<pending, queue, cur>>
         [] Ev.e = "ready" -> phase = "switched" /\ Ev.s = cur /\ phase' = "run" /\ UNCHANGED <<pending, queue, cur, target, must>>
         \* the logger had enough time
         [] Ev.e = "idle" -> pending = {} /\ queue = <<>> /\ Ev.n = (IF cur \in DOMAIN pos THEN pos[cur] ELSE 0) /\ UNCHANGED <<pending, queue, cur, phase, target, must>>
         [] Ev.e = "end" -> phase = "run" /\ pending = {} /\ phase' = "end" /\ UNCHANGED <<pending, queue, cur, target, must>>
         [] Ev.e = "ended" -> phase = "end" /\ queue = <<>> /\ phase' = "ended" /\ UNCHANGED <<pending, queue, cur, target, must>>
         [] OTHER -> FALSE
Next == IF CanWrite THEN Write ELSE Insert \/ Switch \/ Consume
Spec == Init /\ [][Next]_vars

Accepted == ~More /\ phase = "ended" /\ \A k \in DOMAIN pos : pos[k] = Len(Out(k))
Emit == Accepted => EmitCase([accepted |-> t])
=============================================================================
