------------------------------ MODULE Commands -------------------------------
(* The control thread and the audio thread (property C12), step by step.     *)
(*                                                                           *)
(* The control thread issues commands, and reads the time and a parameter.   *)
(* A process call takes commands until it finds none, takes the parameter's  *)
(* changes (one a frame) and the events of a node, renders, and publishes    *)
(* the parameter and the time. Each queue is first in, first out.            *)
EXTENDS Integers, Sequences
VARIABLES
    cpc,     \* what the control thread is doing
    q, lq,   \* commands, and events of a node (levels), on their way
    apc,     \* what the audio thread is doing
    eng,     \* what the audio thread knows
    time, value, \* published
    ghost    \* what happened, for the properties
vars == <<cpc, q, lq, apc, eng, time, value, ghost>>

Idle == [do |-> "idle", x |-> <<>>]
Engine0 == [started |-> FALSE, a |-> 0, b |-> 0, d |-> 0, gain |-> 1, pending |-> <<>>, level |-> 0]
Out(e) == <<e.a + 100 * e.b + 10000 * e.d, e.gain, e.level>>
Init0 == /\ cpc = Idle /\ q = <<>> /\ lq = <<>> /\ apc = [do |-> "idle", n |-> 0, gains |-> 0, taken |-> FALSE, out |-> <<>>]
         /\ eng = Engine0 /\ time = 0 /\ value = 1
         /\ ghost = [issued |-> <<>>, applied |-> <<>>, levels |-> <<>>, level |-> 0, had |-> {1}, due |-> 0, levelsDue |-> 0, frames |-> 0]

IsLevel(c) == c[1] = "level"
\* The control thread
IssueBegin(c) == /\ cpc.do = "idle" /\ cpc' = [do |-> "issuing", x |-> c] /\ UNCHANGED <<q, lq, apc, eng, time, value, ghost>>
Enqueue ==
    /\ cpc.do = "issuing" /\ cpc' = [cpc EXCEPT !.do = "issued"]
    /\ IF IsLevel(cpc.x) THEN lq' = Append(lq, cpc.x) /\ q' = q ELSE q' = Append(q, cpc.x) /\ lq' = lq
    /\ ghost' = IF IsLevel(cpc.x) THEN [ghost EXCEPT !.levels = Append(@, cpc.x[2])] ELSE [ghost EXCEPT !.issued = Append(@, cpc.x)]
    /\ UNCHANGED <<apc, eng, time, value>>
IssueEnd == /\ cpc.do = "issued" /\ cpc' = Idle /\ UNCHANGED <<q, lq, apc, eng, time, value, ghost>>
ReadBegin(what) == /\ cpc.do = "idle" /\ cpc' = [do |-> "reading", x |-> <<what>>] /\ UNCHANGED <<q, lq, apc, eng, time, value, ghost>>
Read == /\ cpc.do = "reading"
        /\ cpc' = [do |-> "read", x |-> <<cpc.x[1], IF cpc.x[1] = "time" THEN time ELSE value>>]
        /\ UNCHANGED <<q, lq, apc, eng, time, value, ghost>>
ReadEnd(what, v) == /\ cpc.do = "read" /\ cpc.x = <<what, v>> /\ cpc' = Idle /\ UNCHANGED <<q, lq, apc, eng, time, value, ghost>>

\* The audio thread
ProcessBegin(n) ==
    /\ apc.do = "idle" /\ apc' = [do |-> "draining", n |-> n, gains |-> 0, taken |-> FALSE, out |-> <<>>]
    /\ ghost' = [ghost EXCEPT !.due = Len(ghost.issued), !.levelsDue = Len(ghost.levels)]
    /\ UNCHANGED <<cpc, q, lq, eng, time, value>>
Apply(e, c) == CASE c[1] = "start" -> [e EXCEPT !.started = TRUE]
                 [] c[1] = "stop" -> [e EXCEPT !.started = FALSE]
                 [] c[1] = "connect a" -> [e EXCEPT !.a = @ + 1]
                 [] c[1] = "connect b" -> [e EXCEPT !.b = @ + 1]
                 [] c[1] = "disconnect a" -> [e EXCEPT !.a = 0]
                 [] c[1] = "disconnect b" -> [e EXCEPT !.b = 0]
                 [] c[1] = "add" -> [e EXCEPT !.d = 1]
                 [] c[1] = "drop" -> [e EXCEPT !.d = 0]
                 [] c[1] = "gain" -> [e EXCEPT !.pending = Append(@, c[2])]
                 [] c[1] = "cancel" -> [e EXCEPT !.pending = <<>>]
Take == /\ apc.do = "draining" /\ q # <<>> /\ q' = Tail(q) /\ eng' = Apply(eng, Head(q))
        /\ ghost' = [ghost EXCEPT !.applied = Append(@, Head(q))]
        /\ UNCHANGED <<cpc, lq, apc, time, value>>
Drained == /\ apc.do = "draining" /\ q = <<>>
           /\ apc' = IF eng.started THEN [apc EXCEPT !.do = "rendering"] ELSE [apc EXCEPT !.do = "done", !.out = <<0, 0, 0>>]
           /\ UNCHANGED <<cpc, q, lq, eng, time, value, ghost>>
\* One change of a parameter a frame
TakeGain == /\ apc.do = "rendering" /\ eng.pending # <<>> /\ apc.gains < apc.n
            /\ eng' = [eng EXCEPT !.gain = Head(eng.pending), !.pending = Tail(eng.pending)]
            /\ apc' = [apc EXCEPT !.gains = @ + 1]
            /\ ghost' = [ghost EXCEPT !.had = @ \cup {eng'.gain}]
            /\ UNCHANGED <<cpc, q, lq, time, value>>
PublishValue == /\ apc.do = "rendering" /\ value # eng.gain /\ value' = eng.gain /\ UNCHANGED <<cpc, q, lq, apc, eng, time, ghost>>
\* The node looks for events at least once, and takes all it finds
TakeLevel == /\ apc.do = "rendering" /\ lq # <<>> /\ lq' = Tail(lq) /\ eng' = [eng EXCEPT !.level = Head(lq)[2]]
             /\ ghost' = [ghost EXCEPT !.level = @ + 1] /\ apc' = [apc EXCEPT !.taken = FALSE]
             /\ UNCHANGED <<cpc, q, time, value>>
NoMoreLevels == /\ apc.do = "rendering" /\ lq = <<>> /\ ~apc.taken /\ apc' = [apc EXCEPT !.taken = TRUE]
                /\ UNCHANGED <<cpc, q, lq, eng, time, value, ghost>>
Render == /\ apc.do = "rendering" /\ apc.taken /\ (eng.pending = <<>> \/ apc.gains = apc.n) /\ value = eng.gain
          /\ apc' = [apc EXCEPT !.do = "publishing", !.out = Out(eng)] /\ ghost' = [ghost EXCEPT !.frames = @ + apc.n]
          /\ UNCHANGED <<cpc, q, lq, eng, time, value>>
PublishTime == /\ apc.do = "publishing" /\ time' = time + apc.n /\ apc' = [apc EXCEPT !.do = "done"]
               /\ UNCHANGED <<cpc, q, lq, eng, value, ghost>>
ProcessEnd(out) == /\ apc.do = "done" /\ apc.out = out /\ apc' = [apc EXCEPT !.do = "idle"] /\ UNCHANGED <<cpc, q, lq, eng, time, value, ghost>>

Hidden == Enqueue \/ Read \/ Take \/ Drained \/ TakeGain \/ PublishValue \/ TakeLevel \/ NoMoreLevels \/ Render \/ PublishTime
----------------------------------------------------------------------------
\* Applied is what was issued, in order, each once
IsPrefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
InOrder == IsPrefix(ghost.applied, ghost.issued) /\ ghost.level <= Len(ghost.levels)
           /\ (ghost.level > 0 => eng.level = ghost.levels[ghost.level])
\* Whatever was issued before a call is in force in it
InForce == apc.do \in {"rendering", "publishing", "done"} => Len(ghost.applied) >= ghost.due
LevelsInForce == apc.do = "publishing" => ghost.level >= ghost.levelsDue
NeverAhead == time <= ghost.frames
WasReal == value \in ghost.had
Monotone == [][time' >= time]_vars
=============================================================================
