------------------------------- MODULE Sampler -------------------------------
(* The sampler (properties C06, C07): what is heard in every frame after    *)
(* any history of timed starts, stops, loops and cancellations.             *)
(*                                                                          *)
(* A voice is active (at a position, fading in or playing) or fading out.   *)
(* Requests wait until the frame that contains their time (or, if that has  *)
(* passed, the first frame after they were made) and are handled in order   *)
(* of their times, equal ones in the order made. Time is in frames.         *)
(* Each frame heard is                                                      *)
(*   [a |-> <<position, frames of fade in done or -1>> or <<>>,             *)
(*    o |-> sequence of <<position, frames of fade out done, 1 or 0>>]      *)
(* where 0 marks a fade that may be cut short for the sake of a new sound:  *)
(* one sound may fade out while another plays, further ones need not.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Length,    \* of the sample
          Fade,      \* length of the fades
          Positions, \* that are started from
          Loops,     \* <<start, end>> that are looped
          Times,     \* how far ahead (or, negative, back) requests are made
          MaxCmds, MaxPending, MaxFrames, Blocks, Burst, Least, SimDepth

VARIABLES clock, pending, active, outs, loop, cmds, hist
vars == <<clock, pending, active, outs, loop, cmds, hist>>

NoLoop == <<-1, -1>>
NoVoice == <<>>

\* The state of the player: [a, o, l]
FadeOut(a) == IF a = NoVoice THEN <<>>
              ELSE LET done == IF a[2] >= 0 THEN Fade - a[2] ELSE 0
                   IN IF done >= Fade THEN <<>> ELSE << <<a[1], done, 1>> >>
Stop(st) == [st EXCEPT !.a = NoVoice, !.o = st.o \o FadeOut(st.a)]
VoiceAt(p) == <<p, IF p = 0 THEN -1 ELSE 0>>
PlayFrom(st, p) ==
    IF st.a # NoVoice /\ st.a[1] = p THEN st
    ELSE [Stop(st) EXCEPT !.a = VoiceAt(p),
                          !.o = IF Len(@) < 2 THEN @ ELSE [i \in 1..Len(@) |-> <<@[i][1], @[i][2], 0>>]]
\* Without a loop the sample is over at its end
EndOfSample(st) == IF st.a # NoVoice /\ st.l = NoLoop /\ st.a[1] >= Length THEN [st EXCEPT !.a = NoVoice] ELSE st

Handle(st, e, now) ==
    CASE e.op = "start_now" -> PlayFrom(st, 0)
      [] e.op = "start" -> PlayFrom(st, e.p + (IF now > e.t THEN now - e.t ELSE 0))
      [] e.op = "stop" -> Stop(st)
      [] e.op = "loop" -> IF e.q - e.p < 1 THEN st ELSE [st EXCEPT !.l = <<e.p, e.q>>]
      [] e.op = "cancel_loop" -> [st EXCEPT !.l = NoLoop]
      [] e.op = "cancel_all" -> [Stop(st) EXCEPT !.l = NoLoop]

RECURSIVE HandleDue(_, _, _)
HandleDue(st, p, now) ==
    IF p # <<>> /\ Head(p).t <= now
    THEN HandleDue(EndOfSample(Handle(EndOfSample(st), Head(p), now)), Tail(p), now)
    ELSE [st |-> st, p |-> p]

LoopBack(st) == IF st.a # NoVoice /\ st.l # NoLoop /\ st.a[1] >= st.l[2] THEN PlayFrom(st, st.l[1]) ELSE st

RECURSIVE Advance(_)
Advance(o) == IF o = <<>> THEN <<>>
              ELSE LET v == <<Head(o)[1] + 1, Head(o)[2] + 1, Head(o)[3]>>
                   IN (IF v[2] >= Fade THEN <<>> ELSE <<v>>) \o Advance(Tail(o))

StepFrame(s) ==
    LET h == HandleDue(EndOfSample(s.st), s.p, s.f)
        st == LoopBack(EndOfSample(h.st))
        next == [st EXCEPT !.a = IF @ = NoVoice THEN @
                                 ELSE <<@[1] + 1, IF @[2] < 0 \/ @[2] + 1 >= Fade THEN -1 ELSE @[2] + 1>>,
                           !.o = Advance(@)]
    IN [f |-> s.f + 1, p |-> h.p, st |-> EndOfSample(next), out |-> Append(s.out, [a |-> st.a, o |-> st.o])]

RECURSIVE Frames(_, _)
Frames(s, n) == IF n = 0 THEN s ELSE Frames(StepFrame(s), n - 1)

Insert(p, e) == LET i == Cardinality({j \in 1..Len(p) : p[j].t <= e.t})
                IN SubSeq(p, 1, i) \o <<e>> \o SubSeq(p, i + 1, Len(p))

Init == /\ clock = 0 /\ pending = <<>> /\ active = NoVoice /\ outs = <<>> /\ loop = NoLoop /\ cmds = 0 /\ hist = <<>>

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"

\* For crowds: nothing but requests for a while (in simulation)
Ready == IF Least = 0 THEN TRUE ELSE ~Calm \/ cmds >= MaxCmds \/ Len(pending) >= MaxPending \/ RandomElement(1..Least) = 1

Request(op, e) ==
    /\ cmds < MaxCmds /\ cmds' = cmds + 1 /\ Calm /\ Len(pending) < MaxPending
    /\ pending' = IF e.op = "cancel_all" THEN <<e>> ELSE Insert(pending, e)
    /\ hist' = Append(hist, [op |-> op, out |-> <<>>])
    /\ UNCHANGED <<clock, active, outs, loop>>

E(op, t, p, q) == [op |-> op, t |-> t, p |-> p, q |-> q]

Process(n) ==
    LET s == Frames([f |-> clock, p |-> pending, st |-> [a |-> active, o |-> outs, l |-> loop], out |-> <<>>], n) IN
    /\ clock + n <= MaxFrames /\ Ready
    /\ clock' = s.f /\ pending' = s.p /\ active' = s.st.a /\ outs' = s.st.o /\ loop' = s.st.l
    /\ UNCHANGED cmds
    /\ hist' = Append(hist, [op |-> <<"process", n>>, out |-> s.out])

Next ==
    \/ Request(<<"start_now">>, E("start_now", 0, 0, 0))
    \/ Request(<<"stop_now">>, E("stop", 0, 0, 0))
    \/ Request(<<"cancel_loop">>, E("cancel_loop", 0, 0, 0))
    \/ Request(<<"cancel_all">>, E("cancel_all", 0, 0, 0))
    \/ \E l \in Loops : Request(<<"loop", l[1], l[2]>>, E("loop", 0, l[1], l[2]))
    \/ \E d \in Times, p \in Positions : clock + d >= 0 /\ Request(<<"start", clock + d, p>>, E("start", clock + d, p, 0))
    \/ \E d \in Times : clock + d >= 0 /\ Request(<<"stop", clock + d>>, E("stop", clock + d, 0, 0))
    \/ \E d \in Times : clock + d >= 0 /\ Request(<<"cancel_loop_at", clock + d>>, E("cancel_loop", clock + d, 0, 0))
    \/ \E d \in Times, l \in Loops :
            clock + d >= 0 /\ Request(<<"loop_at", clock + d, l[1], l[2]>>, E("loop", clock + d, l[1], l[2]))
    \/ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Nothing sounds beyond the end of the sample, except an active loop (silently)
Positioned == /\ active # NoVoice => active[1] >= 0 /\ (loop = NoLoop => active[1] < Length)
              /\ \A i \in 1..Len(outs) : outs[i][2] < Fade
\* What is fading out is on its way to silence, and no two began at once
FadesEnd == \A i \in 1..Len(outs) : outs[i][2] >= 0
\* Requests are kept in order and none is overdue after a call
InOrder == \A i, j \in 1..Len(pending) : i < j => pending[i].t <= pending[j].t
Punctual == (hist # <<>> /\ hist[Len(hist)].op[1] = "process" /\ hist[Len(hist)].op[2] > 0)
                => \A i \in 1..Len(pending) : pending[i].t >= clock
\* Cutting a stretch in two makes no difference
CutAnywhere ==
    LET s == [f |-> clock, p |-> pending, st |-> [a |-> active, o |-> outs, l |-> loop], out |-> <<>>]
    IN \A n, m \in Blocks : Frames(Frames(s, n), m) = Frames(s, n + m)
\* Without a request the active voice goes on by a frame, or from the loop's
\* end to its start, and nothing else
Continues(o) == \A i \in 1..(Len(o) - 1) :
    (o[i].a # NoVoice /\ o[i + 1].a # NoVoice) =>
        \/ o[i + 1].a[1] = o[i].a[1] + 1
        \/ loop # NoLoop /\ o[i + 1].a[1] = loop[1] /\ (o[i].a[1] + 1 >= loop[2])
PlaysOn == [][(pending = <<>> /\ clock' # clock) => Continues(hist'[Len(hist')].out)]_vars
\* After a stop there is silence, once the fade is over
StopSilences == [][(pending = <<>> /\ active = NoVoice /\ clock' >= clock + Fade) => outs' = <<>>]_vars

View == <<clock, pending, active, outs, loop, cmds>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)

LoopsA == {<<1, 3>>, <<0, 4>>}
LoopsB == {<<0, 7>>, <<3, 12>>, <<5, 30>>, <<2, 3>>, <<8, 8>>, <<10, 5>>, <<20, 28>>}
LoopsC == {<<0, 1>>, <<1, 2>>, <<0, 12>>, <<4, 9>>, <<11, 14>>}
TimesA == {0, 2}
TimesB == {-9, -3, 0, 1, 2, 5, 11}
TimesD == {-9, -3, 0, 1, 2, 5, 11, 14, 21, 38, 60, 61, 100}
TimesC == {-2, -1, 0, 1, 3}
=============================================================================
