------------------------------ MODULE AdsrTrace ------------------------------
(* Runs of the real ADSR node, frame by frame, checked against Adsr.tla      *)
EXTENDS Adsr, Json, IOUtils
VARIABLES t, l
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Lines == Traces[t].lines

TraceInit == Idle0 /\ par = [a |-> 0, d |-> 0, s |-> Unity, r |-> 0] /\ t \in 1..Len(Traces) /\ l = 1
IsSet(x) == Len(x.set) = 4
TraceNext ==
    /\ l <= Len(Lines) /\ l' = l + 1 /\ t' = t
    /\ LET x == Lines[l] IN
       IF IsSet(x) THEN /\ par' = [a |-> x.set[1], d |-> x.set[2], s |-> x.set[3], r |-> x.set[4]]
                        /\ UNCHANGED <<phase, level, from, age>>
       ELSE Frame(x.e, x.g)
TraceSpec == TraceInit /\ [][TraceNext]_<<state, t, l>>

Progress == TLCSet(t, IF TLCGet(t) > l THEN TLCGet(t) ELSE l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report == PrintT(<<"REACHED", ToJson([i \in 1..Len(Traces) |-> TLCGet(i)])>>)
=============================================================================
