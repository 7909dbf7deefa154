------------------------------- MODULE Queues --------------------------------
(* Everything that crosses between the control side and the audio process    *)
(* crosses in a queue (property C20). The audio process must get through a   *)
(* call step by step, whatever the other side does: it may stop for good, at *)
(* any point, with queues empty or full. What a queue does when it is full   *)
(* is its policy; only the audio process's own steps are fair.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Room, MaxSent, MaxCalls, Policy
VARIABLES
    commands,  \* to the audio process: how many wait, and what the next ones are
    events,    \* to a node
    notes,     \* from a node
    garbage,   \* removed nodes, to the collector
    pc, due, calls, sent, alive, lost
vars == <<commands, events, notes, garbage, pc, due, calls, sent, alive, lost>>

Init == /\ commands = <<>> /\ events = 0 /\ notes = 0 /\ garbage = 0
        /\ pc = "idle" /\ due = 0 /\ calls = 0 /\ sent = 0 /\ alive = {"control", "collector"} /\ lost = 0
\* The control side
Send(c) == /\ "control" \in alive /\ sent < MaxSent /\ sent' = sent + 1 /\ commands' = Append(commands, c)
           /\ UNCHANGED <<events, notes, garbage, pc, due, calls, alive, lost>>
SendEvent == /\ "control" \in alive /\ sent < MaxSent /\ sent' = sent + 1 /\ events' = events + 1
             /\ UNCHANGED <<commands, notes, garbage, pc, due, calls, alive, lost>>
Read == /\ "control" \in alive /\ notes > 0 /\ notes' = 0 /\ UNCHANGED <<commands, events, garbage, pc, due, calls, sent, alive, lost>>
Collect == /\ "collector" \in alive /\ garbage > 0 /\ garbage' = garbage - 1
           /\ UNCHANGED <<commands, events, notes, pc, due, calls, sent, alive, lost>>
\* Never again
Leave(who) == /\ who \in alive /\ alive' = alive \ {who} /\ UNCHANGED <<commands, events, notes, garbage, pc, due, calls, sent, lost>>
\* The audio process
Call == /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ pc' = "commands"
        /\ UNCHANGED <<commands, events, notes, garbage, due, sent, alive, lost>>
Take == /\ pc = "commands" /\ commands # <<>> /\ commands' = Tail(commands)
        /\ pc' = IF Head(commands) = "remove" THEN "hand over" ELSE "commands"
        /\ UNCHANGED <<events, notes, garbage, due, calls, sent, alive, lost>>
\* A removed node is never lost
HandOver == /\ pc = "hand over" /\ (Policy.garbage = "grow" \/ garbage < Room)
            /\ garbage' = garbage + 1 /\ pc' = "commands"
            /\ UNCHANGED <<commands, events, notes, due, calls, sent, alive, lost>>
NoMore == /\ pc = "commands" /\ commands = <<>> /\ pc' = "events" /\ UNCHANGED <<commands, events, notes, garbage, due, calls, sent, alive, lost>>
TakeEvent == /\ pc = "events" /\ events > 0 /\ events' = events - 1 /\ UNCHANGED <<commands, notes, garbage, pc, due, calls, sent, alive, lost>>
Render == /\ pc = "events" /\ events = 0 /\ pc' = "notify" /\ due' \in {0, 1, 2}
          /\ UNCHANGED <<commands, events, notes, garbage, calls, sent, alive, lost>>
\* A notification that nobody reads may be lost
Notify == /\ pc = "notify" /\ due > 0 /\ due' = due - 1
          /\ \/ notes < Room /\ notes' = notes + 1 /\ lost' = lost
             \/ notes >= Room /\ Policy.notes = "discard" /\ notes' = notes /\ lost' = lost + 1
          /\ UNCHANGED <<commands, events, garbage, pc, calls, sent, alive>>
Return == /\ pc = "notify" /\ due = 0 /\ pc' = "idle" /\ UNCHANGED <<commands, events, notes, garbage, due, calls, sent, alive, lost>>
Audio == Take \/ HandOver \/ NoMore \/ TakeEvent \/ Render \/ Notify \/ Return
Others == Send("other") \/ Send("remove") \/ SendEvent \/ Read \/ Collect \/ Leave("control") \/ Leave("collector")
Next == Audio \/ Call \/ Others
Spec == Init /\ [][Next]_vars
AudioLive == Spec /\ WF_vars(Audio)
----------------------------------------------------------------------------
\* There is always a step to take
NeverWaits == pc # "idle" => ENABLED Audio
Returns == (pc # "idle") ~> (pc = "idle")
\* Only what was not read is lost
OnlyUnread == [][lost' # lost => notes = Room]_vars
Safe == [garbage |-> "grow", notes |-> "discard"]
=============================================================================
