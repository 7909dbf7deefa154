----------------------------- MODULE CommandsMC ------------------------------
(* Commands.tla, explored in every interleaving                              *)
EXTENDS Commands
CONSTANTS Issues, MaxIssues, MaxCalls, MaxReads
VARIABLES issues, calls, reads
all == <<vars, issues, calls, reads>>
Init == Init0 /\ issues = 0 /\ calls = 0 /\ reads = 0
Next == \/ \E c \in Issues : issues < MaxIssues /\ IssueBegin(c) /\ issues' = issues + 1 /\ UNCHANGED <<calls, reads>>
        \/ \E w \in {"time", "value"} : reads < MaxReads /\ ReadBegin(w) /\ reads' = reads + 1 /\ UNCHANGED <<issues, calls>>
        \/ \E n \in {1, 2} : calls < MaxCalls /\ ProcessBegin(n) /\ calls' = calls + 1 /\ UNCHANGED <<issues, reads>>
        \/ /\ (IssueEnd \/ (cpc.do = "read" /\ ReadEnd(cpc.x[1], cpc.x[2])) \/ (apc.do = "done" /\ ProcessEnd(apc.out)) \/ Hidden)
           /\ UNCHANGED <<issues, calls, reads>>
Spec == Init /\ [][Next]_all
\* Both threads go on
Live == Spec /\ WF_all(Next)
Quiet == cpc.do = "idle" /\ apc.do = "idle"
\* A call returns, whatever the control thread does or does not do
Returns == (apc.do # "idle") ~> (apc.do = "idle")
AudioLive == Spec /\ WF_all((Take \/ Drained \/ TakeGain \/ PublishValue \/ TakeLevel \/ NoMoreLevels \/ Render \/ PublishTime) /\ UNCHANGED <<issues, calls, reads>>)
                  /\ WF_all(apc.do = "done" /\ ProcessEnd(apc.out) /\ UNCHANGED <<issues, calls, reads>>)
IssuesA == {<<"start">>, <<"stop">>, <<"connect a">>, <<"gain", 2>>, <<"level", 3>>}
IssuesB == IssuesA \cup {<<"gain", 4>>, <<"level", 5>>, <<"cancel">>, <<"disconnect a">>}
=============================================================================
