------------------------------ MODULE Transport ------------------------------
(* Starting, stopping and the clock (property C03).                         *)
(*                                                                          *)
(* Requests wait in a queue until the next process call takes them all, in  *)
(* order. While started a call of n frames makes n frames of audio and      *)
(* advances the clock by n; while stopped it makes silence and nothing      *)
(* moves. What is played in a frame: <<number of the frame (all that were   *)
(* ever played count from 1), value of a parameter, whether a second source *)
(* is connected>>.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCmds, MaxFrames, Blocks, Values, Burst, SimDepth

VARIABLES queue, on, clock, gain, linked, fresh, handle, cmds, hist
vars == <<queue, on, clock, gain, linked, fresh, handle, cmds, hist>>

State == [on |-> on, gain |-> gain, linked |-> linked]

Init == /\ queue = <<>> /\ on = FALSE /\ clock = 0 /\ gain = 1 /\ linked = 0
        /\ handle = TRUE /\ fresh = FALSE /\ cmds = 0 /\ hist = <<>>

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"

Send(op) == /\ cmds < MaxCmds /\ cmds' = cmds + 1 /\ Calm
            /\ queue' = Append(queue, op)
            /\ hist' = Append(hist, [op |-> op, frames |-> 0, now |-> clock])
            /\ UNCHANGED <<on, clock, gain, linked>>

Start == Send(<<"start">>) /\ UNCHANGED <<handle, fresh>>
Stop == Send(<<"stop">>) /\ UNCHANGED <<handle, fresh>>
\* (One change of a parameter is taken per frame, see Automation; here only
\* one is under way at a time)
SetGain(v) == ~fresh /\ Send(<<"gain", v>>) /\ fresh' = TRUE /\ UNCHANGED handle
Link == handle /\ Send(<<"link">>) /\ UNCHANGED <<handle, fresh>>
Unlink == handle /\ Send(<<"unlink">>) /\ UNCHANGED <<handle, fresh>>
\* The second source is dropped, or made anew
Drop == handle /\ Send(<<"drop">>) /\ handle' = FALSE /\ UNCHANGED fresh
Add == ~handle /\ Send(<<"add">>) /\ handle' = TRUE /\ UNCHANGED fresh

RECURSIVE Apply(_, _)
Apply(q, st) ==
    IF q = <<>> THEN st
    ELSE LET o == Head(q)[1]
         IN Apply(Tail(q),
              CASE o = "start" -> [st EXCEPT !.on = TRUE]
                [] o = "stop" -> [st EXCEPT !.on = FALSE]
                [] o = "gain" -> [st EXCEPT !.gain = Head(q)[2]]
                [] o = "link" -> [st EXCEPT !.linked = @ + 1]
                [] o \in {"unlink", "drop"} -> [st EXCEPT !.linked = 0]
                [] OTHER -> st)


Process(n) ==
    LET st == Apply(queue, State) IN
    /\ clock + n <= MaxFrames
    /\ queue' = <<>>
    /\ on' = st.on /\ linked' = st.linked
    /\ gain' = st.gain
    /\ clock' = IF st.on THEN clock + n ELSE clock
    /\ fresh' = (fresh /\ clock' = clock)
    /\ UNCHANGED <<cmds, handle>>
    /\ hist' = Append(hist,
        [op |-> <<"process", n>>, playing |-> st.on, first |-> clock + 1, gain |-> st.gain,
         linked |-> st.linked, frames |-> IF st.on THEN n ELSE 0, now |-> clock'])

Next ==
    \/ Start \/ Stop \/ Link \/ Unlink \/ Drop \/ Add
    \/ \E v \in Values : SetGain(v)
    \/ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Nothing that was asked for before a call is left over after it
NeverLate == (hist # <<>> /\ hist[Len(hist)].op[1] = "process") => queue = <<>>
\* The clock is the number of frames that were heard
RECURSIVE Heard(_)
Heard(h) == IF h = <<>> THEN 0 ELSE Head(h).frames + Heard(Tail(h))
ClockIsHeard == clock = Heard(hist)
\* While stopped the clock stands
StoppedIsStill == [][clock' # clock => on']_vars

View == <<queue, on, clock, gain, linked, fresh, handle, cmds>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
=============================================================================
