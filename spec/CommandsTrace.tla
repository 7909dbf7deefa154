---------------------------- MODULE CommandsTrace ----------------------------
(* Runs of two real threads, checked against Commands.tla. The lines are in  *)
(* the order of the beginnings and ends of the calls of both threads; what   *)
(* happens in between is for TLC to find.                                    *)
EXTENDS Commands, TLC, Json, IOUtils
VARIABLES t, l
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Lines == Traces[t].lines
TraceInit == Init0 /\ t \in 1..Len(Traces) /\ l = 1
Line(x) == CASE x.e = "issue" -> IssueBegin(x.c)
             [] x.e = "issued" -> IssueEnd
             [] x.e = "read" -> ReadBegin(x.c[1])
             [] x.e = "got" -> ReadEnd(x.c[1], x.c[2])
             [] x.e = "process" -> ProcessBegin(x.c[1])
             [] x.e = "processed" -> ProcessEnd(x.c)
TraceNext == \/ l <= Len(Lines) /\ Line(Lines[l]) /\ l' = l + 1 /\ t' = t
             \/ Hidden /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, l>>
\* Not the history
View == <<cpc, q, lq, apc, eng, time, value, t, l>>
Progress == TLCSet(t, IF TLCGet(t) > l THEN TLCGet(t) ELSE l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report == PrintT(<<"REACHED", ToJson([i \in 1..Len(Traces) |-> TLCGet(i)])>>)
=============================================================================
