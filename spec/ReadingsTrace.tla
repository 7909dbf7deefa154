---------------------------- MODULE ReadingsTrace ----------------------------
(* What a control thread may read while the audio thread renders (property   *)
(* C12), against runs of two real threads.                                   *)
(*                                                                           *)
(* Every parameter moves by one step a frame, so that the step it is at says *)
(* how many frames it has seen. The audio thread goes over the frames of a   *)
(* block at its own pace; a reading shows the parameter, or the time, as it  *)
(* was at some instant between the beginning and the end of the reading.     *)
(* Lines are in the order of the beginnings and ends of the calls.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES
    done,    \* frames rendered by the calls which have returned
    doing,   \* and by the call which has not
    seen,    \* the latest reading of everything that can be read
    reading, \* what is being read, and the least it can be
    t, l
vars == <<done, doing, seen, reading, t, l>>

\* Readings are in hundredths of a frame. A parameter is published with the
\* value of a frame, in its beginning or at its end; the time with the number
\* of frames rendered.
Slack(w) == IF w = 1 THEN 0 ELSE 1
None == <<0, 0>>

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Lines == Traces[t].lines
Larger(a, b) == IF a > b THEN a ELSE b

ProcessBegin(n) == done = doing /\ doing' = done + n /\ UNCHANGED <<done, seen, reading>>
ProcessEnd == done' = doing /\ UNCHANGED <<doing, seen, reading>>
ReadBegin(w) == reading = None /\ reading' = <<w, Larger(seen[w], done - Slack(w))>> /\ UNCHANGED <<done, doing, seen>>
\* v hundredths of a frame: a whole number of frames, to within a few
ReadEnd(w, v) ==
    LET k == (v + 50) \div 100  off == v - 100 * k IN
    /\ reading[1] = w
    /\ off \in -4..4
    /\ reading[2] <= k
    /\ k <= doing
    /\ seen' = [seen EXCEPT ![w] = k]
    /\ reading' = None
    /\ UNCHANGED <<done, doing>>

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ done = 0 /\ doing = 0 /\ reading = None /\ seen = [w \in 1..Traces[t].things |-> 0]
Line(x) == CASE x.e = "read" -> ReadBegin(x.c[1])
             [] x.e = "got" -> ReadEnd(x.c[1], x.c[2])
             [] x.e = "process" -> ProcessBegin(x.c[1])
             [] x.e = "processed" -> ProcessEnd
TraceNext == l <= Len(Lines) /\ Line(Lines[l]) /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<done, doing, seen, reading, t, l>>
\* Nothing read is from the future
Past == \A w \in DOMAIN seen : seen[w] <= doing
Progress == TLCSet(t, IF TLCGet(t) > l THEN TLCGet(t) ELSE l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report == PrintT(<<"REACHED", ToJson([i \in 1..Len(Traces) |-> TLCGet(i)])>>)
=============================================================================
