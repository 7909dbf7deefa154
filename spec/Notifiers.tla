------------------------------ MODULE Notifiers ------------------------------
(* What the control side is told by many meters and recorders at once        *)
(* (properties C08, C09, C13): every call of process_notifications brings    *)
(* what every living node has sent, whichever of the others have come or     *)
(* gone in between, and in whatever order they were made.                    *)
(*                                                                          *)
(* A meter reports every frame; a report is the number of the frame. A       *)
(* recorder records from its creation until it is stopped. Both get every    *)
(* frame that is processed. A node may be made again after it was dropped.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, Blocks, MaxOps, Capacity, Lively, SimDepth
VARIABLES st, clock, hist
vars == <<st, clock, hist>>

Kinds == {"meter", "recorder"}
None == [kind |-> "none", from |-> 0, queued |-> 0, held |-> 0, stopping |-> FALSE, on |-> FALSE, told |-> FALSE, whole |-> 0, toldWhole |-> 0]

\* queued: frames up to which reports were sent or frames recorded; held: those the control side has
Init == st = [x \in Nodes |-> None] /\ clock = 0 /\ hist = <<>>

Log(op, x) == hist' = Append(hist, [op |-> op, x |-> x])
Open == Len(hist) < MaxOps

New(x, k) == /\ Open /\ st[x].kind = "none"
             /\ st' = [st EXCEPT ![x] = [None EXCEPT !.kind = k, !.from = clock, !.queued = clock, !.held = clock, !.whole = clock, !.toldWhole = clock]]
             /\ Log(<<"new", x, k>>, <<>>) /\ UNCHANGED clock
Drop(x) == /\ Open /\ st[x].kind # "none" /\ st' = [st EXCEPT ![x] = None]
           /\ Log(<<"drop", x>>, <<>>) /\ UNCHANGED clock
Stop(x) == /\ Open /\ st[x].kind = "recorder" /\ ~st[x].stopping
           /\ st' = [st EXCEPT ![x].stopping = TRUE]
           /\ Log(<<"stop", x>>, <<>>) /\ UNCHANGED clock
\* Starts and stops take effect at the start of the block, even an empty one
Played(s, n) ==
    IF s.kind = "meter" THEN [s EXCEPT !.queued = @ + n]
    ELSE IF s.kind = "recorder" THEN
        IF s.stopping THEN [s EXCEPT !.on = FALSE, !.whole = s.queued]
        ELSE [s EXCEPT !.on = TRUE, !.queued = @ + n]
    ELSE s
Process(n) ==
    /\ Open /\ \A x \in Nodes : st[x].kind = "meter" => st[x].queued - st[x].held + n <= Capacity
    /\ clock' = clock + n
    /\ st' = [x \in Nodes |-> Played(st[x], n)]
    /\ Log(<<"process", n>>, <<>>)
Told(s) == IF s.kind = "none" THEN s ELSE [s EXCEPT !.told = s.on, !.toldWhole = s.whole, !.held = s.queued]
Notify == /\ Open /\ st' = [x \in Nodes |-> Told(st[x])]
          /\ Log(<<"notify">>, [x \in Nodes |-> LET s == Told(st[x]) IN <<s.kind, s.told>>]) /\ UNCHANGED clock
\* A meter gives its reports of the frames from the last take to the last notification
\* (the harness knows how many it took); a recorder at least those of a finished recording
Take(x) == /\ Open /\ st[x].kind # "none"
           /\ Log(<<"take", x>>, IF st[x].kind = "meter" THEN <<st[x].held, st[x].held>> ELSE <<st[x].toldWhole, st[x].held>>)
           /\ UNCHANGED <<st, clock>>

\* In simulation: not too many of the operations on one node at a time
Some(n) == IF Lively = 0 THEN TRUE ELSE RandomElement(1..n) = 1
Next == \/ \E x \in Nodes, k \in Kinds : New(x, k)
        \/ \E x \in Nodes : Some(4) /\ Drop(x)
        \/ \E x \in Nodes : Some(4) /\ Stop(x)
        \/ \E n \in Blocks : Process(n)
        \/ Notify
        \/ \E x \in Nodes : Some(2) /\ Take(x)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Living == {x \in Nodes : st[x].kind # "none"}
Bounded == \A x \in Living : LET s == st[x] IN
    /\ s.from <= s.toldWhole /\ s.toldWhole <= s.whole /\ s.whole <= s.queued /\ s.held <= s.queued /\ s.queued <= clock
    /\ s.kind = "meter" => s.queued = clock /\ s.queued - s.held <= Capacity
\* Nothing one node does is seen in another
Undisturbed == [][\A x \in Nodes : hist' # hist /\ LET op == hist'[Len(hist')].op IN
                    op[1] \in {"new", "drop", "stop", "take"} /\ op[2] # x => st'[x] = st[x]]_vars
\* After a notification nobody is behind
Fresh == (hist # <<>> /\ hist[Len(hist)].op[1] = "notify") => \A x \in Living : st[x].held = st[x].queued /\ st[x].told = st[x].on
----------------------------------------------------------------------------
View == <<st, clock, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)].op>>
Emit == hist'[Len(hist')].op[1] \in {"take", "notify"} => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
=============================================================================
