-------------------------------- MODULE Events --------------------------------
(* Timed events on nodes (property C07), seen through gates: an envelope     *)
(* whose times are all zero shows an "on" event as one frame of unity, after *)
(* which it holds the sustain level, and an "off" event as silence. So every *)
(* event can be told by the frame it takes effect in, how often it does, and *)
(* in which order.                                                           *)
(* Times are in ticks, Tick of them to a frame. An event takes effect in the *)
(* frame that contains its time, or, if that frame has been processed when   *)
(* it is issued, in the next one. Events are taken in order of their times,  *)
(* and of their issue where the times are equal. Changes of the sustain      *)
(* level carry no time: they are taken first thing in the next block.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Gates, Tick, Ahead, Levels, MaxCmds, MaxPending, MaxFrames, Blocks, Burst, Least, SimDepth
VARIABLES clock, pending, gate, cmds, hist
vars == <<clock, pending, gate, cmds, hist>>

Unity == 8
\* A gate: [ph |-> "idle", "open" (about to show unity) or "hold", lv |-> sustain level]
Init == /\ clock = 0 /\ pending = [g \in Gates |-> <<>>] /\ gate = [g \in Gates |-> [ph |-> "idle", lv |-> Unity]]
        /\ cmds = 0 /\ hist = <<>>

Insert(p, e) == LET i == Cardinality({j \in 1..Len(p) : p[j].t <= e.t})
                IN SubSeq(p, 1, i) \o <<e>> \o SubSeq(p, i + 1, Len(p))
FrameOf(t) == t \div Tick
Handle(s, e) == CASE e.op = "on" -> [s EXCEPT !.ph = "open"]
                  [] e.op = "off" -> [s EXCEPT !.ph = "idle"]
                  [] e.op = "level" -> [s EXCEPT !.lv = e.v]

RECURSIVE Due(_, _, _)
Due(s, p, f) == IF p # <<>> /\ FrameOf(Head(p).t) <= f THEN Due(Handle(s, Head(p)), Tail(p), f) ELSE [s |-> s, p |-> p]

Heard(s) == CASE s.ph = "open" -> Unity [] s.ph = "hold" -> s.lv [] s.ph = "idle" -> 0
After(s) == IF s.ph = "open" THEN [s EXCEPT !.ph = "hold"] ELSE s

RECURSIVE Frames(_, _, _, _, _)
Frames(s, p, f, n, out) ==
    IF n = 0 THEN [s |-> s, p |-> p, out |-> out]
    ELSE LET d == Due(s, p, f) IN Frames(After(d.s), d.p, f + 1, n - 1, Append(out, Heard(d.s)))

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"

\* For crowds: nothing but requests for a while (in simulation)
Ready == IF Least = 0 THEN TRUE ELSE ~Calm \/ cmds >= MaxCmds \/ (\E g \in Gates : Len(pending[g]) >= MaxPending) \/ RandomElement(1..Least) = 1

Issue(g, op, e) ==
    /\ cmds < MaxCmds /\ cmds' = cmds + 1 /\ Calm /\ Len(pending[g]) < MaxPending
    /\ pending' = [pending EXCEPT ![g] = Insert(@, e)]
    /\ hist' = Append(hist, [op |-> op, out |-> <<>>])
    /\ UNCHANGED <<clock, gate>>

Process(n) ==
    LET r == [g \in Gates |-> Frames(gate[g], pending[g], clock, n, <<>>)] IN
    /\ clock + n <= MaxFrames /\ Ready /\ clock' = clock + n
    /\ gate' = [g \in Gates |-> r[g].s] /\ pending' = [g \in Gates |-> r[g].p]
    /\ hist' = Append(hist, [op |-> <<"process", n>>, out |-> [g \in Gates |-> r[g].out]])
    /\ UNCHANGED cmds

Next ==
    \/ \E g \in Gates, d \in Ahead, o \in {"on", "off"} :
         /\ clock * Tick + d >= 0
         /\ Issue(g, <<o, g, clock * Tick + d>>, [op |-> o, t |-> clock * Tick + d, v |-> 0])
    \/ \E g \in Gates, v \in Levels : Issue(g, <<"level", g, v>>, [op |-> "level", t |-> 0, v |-> v])
    \/ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
InOrder == \A g \in Gates : \A i, j \in 1..Len(pending[g]) : i < j => pending[g][i].t <= pending[g][j].t
\* None is left behind by a call that goes past its frame
Punctual == (hist # <<>> /\ hist[Len(hist)].op[1] = "process" /\ hist[Len(hist)].op[2] > 0)
                => \A g \in Gates : \A i \in 1..Len(pending[g]) : FrameOf(pending[g][i].t) >= clock
\* Every event is either waiting or was taken, once
Count(g) == Cardinality({i \in 1..Len(hist) : hist[i].op[1] # "process" /\ hist[i].op[2] = g})
NoMore == \A g \in Gates : Len(pending[g]) <= Count(g)
CutAnywhere == \A g \in Gates, n, m \in Blocks :
    LET a == Frames(gate[g], pending[g], clock, n, <<>>) IN
    Frames(a.s, a.p, clock + n, m, a.out) = Frames(gate[g], pending[g], clock, n + m, <<>>)
\* One gate's events say nothing to another
Isolated == [][\A g \in Gates : (hist'[Len(hist')].op[1] # "process" /\ hist'[Len(hist')].op[2] # g) => pending'[g] = pending[g]]_vars

View == <<clock, pending, gate, cmds>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
AheadA == {0, 5, 6, 8}
AheadC == {-16, -3, 0, 1, 2, 3, 4, 5, 6, 7, 9, 14, 30, 50, 51, 77, 120, 200, 201}
AheadB == {-16, -7, -2, 0, 1, 2, 3, 5, 6, 9, 14, 30, 4000000}
=============================================================================
