------------------------------ MODULE Partition ------------------------------
(* Any cut of the stream into blocks gives the same output (property C02).   *)
(* Nodes hold a value that timed changes move (at once or over some frames), *)
(* and state that carries over from frame to frame. The reference handles    *)
(* every frame on its own. The machine handles blocks: it cuts them at its   *)
(* maximum, and each piece at the next event, as the engine does. Two        *)
(* machines with the same commands and different blocks are compared with    *)
(* the reference.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nodes, Values, Durations, Ahead, Cuts, Maxima, Total, MaxCmds, MaxStretches, Burst, Sim, SimDepth
VARIABLES ref, one, two, maxima, cmds, stretches, burst, hist
vars == <<ref, one, two, maxima, cmds, stretches, burst, hist>>

Start == [pos |-> 0, node |-> [p \in Nodes |-> [from |-> 0, to |-> 0, start |-> 0, dur |-> 0]], acc |-> 0, queue |-> <<>>, seq |-> 0]
Init == /\ ref = Start /\ one = Start /\ two = Start /\ maxima \in Maxima \X Maxima
        /\ cmds = 0 /\ stretches = 0 /\ burst = 0
        /\ hist = <<[op |-> <<"engines", maxima[1], maxima[2]>>, pos |-> 0]>>

\* A value in quarters
At(x, f) == IF f >= x.start + x.dur THEN x.to ELSE x.from + ((x.to - x.from) * (f - x.start)) \div x.dur
RECURSIVE All(_, _, _)
All(s, f, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN p * At(s.node[p], f) + All(s, f, S \ {p})
\* In the order of their times, then as issued
Before(a, b) == a.time < b.time \/ (a.time = b.time /\ a.seq < b.seq)
Insert(q, c) == LET i == CHOOSE i \in 1..Len(q) + 1 : (\A j \in 1..Len(q) : (j < i) <=> Before(q[j], c))
                IN  SubSeq(q, 1, i - 1) \o <<c>> \o SubSeq(q, i, Len(q))
\* Times are in half frames
FrameOf(c) == c.time \div 2
Take(s) == LET c == Head(s.queue)
           IN  [s EXCEPT !.queue = Tail(@), !.node[c.node] = [from |-> At(@, s.pos), to |-> 4 * c.value, start |-> s.pos, dur |-> c.dur]]
\* One frame, whatever is due at it being taken
Tick(s) == [s EXCEPT !.acc = (3 * @ + All(s, s.pos, Nodes) + 7) % 1009, !.pos = @ + 1]

RECURSIVE Due(_), Frames(_, _)
Due(s) == IF s.queue # <<>> /\ FrameOf(Head(s.queue)) <= s.pos THEN Due(Take(s)) ELSE s
Frames(s, k) == IF k = 0 THEN s ELSE Frames(Tick(Due(s)), k - 1)

\* The machine: frames up to the next event of the piece, the event, and on
RECURSIVE Plain(_, _), Piece(_, _), Pieces(_, _, _), Blocks(_, _, _)
Plain(s, k) == IF k = 0 THEN s ELSE Plain(Tick(s), k - 1)
Piece(s, end) ==
    IF s.queue # <<>> /\ FrameOf(Head(s.queue)) < end
    THEN LET e == FrameOf(Head(s.queue)) IN Piece(Take(Plain(s, IF e > s.pos THEN e - s.pos ELSE 0)), end)
    ELSE Plain(s, end - s.pos)
Pieces(s, k, max) == IF k = 0 THEN s ELSE LET m == IF k < max THEN k ELSE max IN Pieces(Piece(s, s.pos + m), k - m, max)
Blocks(s, parts, max) == IF parts = <<>> THEN s ELSE Blocks(Pieces(s, Head(parts), max), Tail(parts), max)

Log(op) == hist' = Append(hist, [op |-> op, pos |-> ref'.pos])
Add(s, p, v, t, d) == [s EXCEPT !.queue = Insert(@, [node |-> p, value |-> v, time |-> t, dur |-> d, seq |-> s.seq]), !.seq = @ + 1]
\* All are issued between blocks, when the machines are at the same frame
Change(p, v, a, d) ==
    /\ burst < Burst /\ cmds < MaxCmds
    /\ LET t == 2 * ref.pos + a
       IN  /\ ref' = Add(ref, p, v, t, d) /\ one' = Add(one, p, v, t, d) /\ two' = Add(two, p, v, t, d)
           /\ Log(<<"change", p, v, t, d>>)
    /\ cmds' = cmds + 1 /\ burst' = burst + 1 /\ UNCHANGED <<maxima, stretches>>
Stretch(a, b) ==
    /\ ref' = Frames(ref, Total) /\ one' = Blocks(one, a, maxima[1]) /\ two' = Blocks(two, b, maxima[2])
    /\ stretches' = stretches + 1 /\ burst' = 0 /\ UNCHANGED <<cmds, maxima>>
    /\ Log(<<"stretch", a, b>>)

\* A random way to cut k frames
RECURSIVE Cut(_)
Cut(k) == IF k = 0 THEN <<>> ELSE LET m == RandomElement(0..k) IN <<m>> \o Cut(k - m)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Next == \/ \E p \in Nodes : cmds < MaxCmds /\ \E v \in Pick(Values), a \in Pick(Ahead), d \in Pick(Durations) : Change(p, v, a, d)
        \/ /\ stretches < MaxStretches
           /\ IF Sim THEN Stretch(Cut(Total), Cut(Total)) ELSE \E a \in Cuts, b \in Cuts : Stretch(a, b)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Same == one = ref /\ two = ref
View == <<ref, one, two, maxima, cmds, stretches, burst>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
AheadA == {0, 1, 3, 6}
AheadB == 0..40
CutsA == {<<4>>, <<1, 3>>, <<3, 0, 1>>, <<1, 1, 1, 1>>}
=============================================================================
