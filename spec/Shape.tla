--------------------------------- MODULE Shape ---------------------------------
(* Gain, pan and waveshaper (property C17): nodes whose output depends only  *)
(* on the same frame of the input and of the parameters.                     *)
(*                                                                           *)
(* The input of channel c at frame t is J(c, t) / 510. Parameter values are  *)
(* in quarters; the overdrive is a factor Drive(v). Changes take effect at   *)
(* the next frame, one per frame when several are due (C04). The curve of a  *)
(* waveshaper is known at the points k / 255: Curve(k) thousandths there.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Shaper, Channels, Values1, Values2, Blocks, MaxCmds, MaxBlocks, Burst, SimDepth
VARIABLES time, p1, p2, q1, q2, cmds, blocks, hist
vars == <<time, p1, p2, q1, q2, cmds, blocks, hist>>
\* Beyond 1 as well, on the points and between them, and 1 and -1
\* Some curves are only known at the multiples of 1/5
Fifths == Shaper \in {"tanh", "soft"}
J(c, t) == IF Fifths THEN 102 * (((t * 7 + c * 3) % 15) - 7) ELSE LET k == (t * 37 + c * 101) % 29 IN
    CASE k = 0 -> 510 [] k = 1 -> -510 [] k = 2 -> 0 [] k = 3 -> 700 [] k = 4 -> -900 [] k = 5 -> 511 [] k = 6 -> 1 [] k = 7 -> -1
      [] OTHER -> ((t * 77 + c * 131 + (t \div 7) * 13) % 1021) - 510
Abs(x) == IF x < 0 THEN -x ELSE x
Tanh5 == <<0, 199, 395, 583, 760, 924>>
Soft5 == <<0, 200, 388, 520, 584, 600>>
Curve(k) ==
    CASE Shaper = "jagged" -> 10 * (((k + 255) * 37) % 101) - 500
      [] Shaper = "square" -> (k * k * 1000) \div 65025
      [] Shaper = "identity" -> (k * 1000) \div 255
      [] Shaper = "clip" -> IF k > 102 THEN 400 ELSE IF k < -102 THEN -400 ELSE (k * 1000) \div 255
      [] Shaper = "offset" -> 250
      [] Shaper = "tanh" -> IF k >= 0 THEN Tanh5[k \div 51 + 1] ELSE -Tanh5[(-k) \div 51 + 1]
      [] Shaper = "soft" -> IF k >= 0 THEN Soft5[k \div 51 + 1] ELSE (k * 1000) \div 255
      [] OTHER -> 0
Default1 == IF Kind = "gain" THEN 4 ELSE IF Kind = "pan" THEN 0 ELSE 1
Default2 == 4
Init == time = 0 /\ p1 = Default1 /\ p2 = Default2 /\ q1 = <<>> /\ q2 = <<>> /\ cmds = 0 /\ blocks = 0 /\ hist = <<>>
Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"
Set1(v) == /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ q1' = Append(q1, v)
           /\ hist' = Append(hist, [op |-> <<"set", 1, v>>, x |-> <<>>, want |-> <<>>])
           /\ UNCHANGED <<time, p1, p2, q2, blocks>>
Set2(v) == /\ Kind = "shaper" /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ q2' = Append(q2, v)
           /\ hist' = Append(hist, [op |-> <<"set", 2, v>>, x |-> <<>>, want |-> <<>>])
           /\ UNCHANGED <<time, p1, p2, q1, blocks>>
Last(v, q) == IF q = <<>> THEN v ELSE q[Len(q)]
In(v, q, i) == IF i = 0 THEN v ELSE IF i <= Len(q) THEN q[i] ELSE Last(v, q)
Rest(q, n) == SubSeq(q, n + 1, Len(q))

\* Twice the curve at j / 510, in thousandths
Twice(j) == LET d == IF j > 510 THEN 510 ELSE IF j < -510 THEN -510 ELSE j
            IN IF d % 2 = 0 THEN 2 * Curve(d \div 2) ELSE Curve((d - 1) \div 2) + Curve((d + 1) \div 2)
\* The output <<a, b, c>>: a / (2000 b) of the curve, and c quarters of 1/510 of the input
Lesser(x, y) == IF x < y THEN x ELSE y
Out(c, j, v, m) ==
    CASE Kind = "gain" -> <<0, 1, v * j>>
      [] Kind = "pan" -> <<0, 1, (IF c = 1 THEN Lesser(4, 4 - v) ELSE Lesser(4, 4 + v)) * j>>
      [] Kind = "shaper" -> <<m * Twice(v * j), 4 * v, (4 - m) * j>>
Process(n) ==
    /\ blocks < MaxBlocks /\ blocks' = blocks + 1 /\ time' = time + n
    /\ p1' = In(p1, q1, n) /\ p2' = In(p2, q2, n) /\ q1' = Rest(q1, n) /\ q2' = Rest(q2, n)
    /\ hist' = Append(hist, [op |-> <<"process", n>>, x |-> [c \in 1..Channels |-> [i \in 1..n |-> J(c, time + i)]],
                             want |-> [c \in 1..Channels |-> [i \in 1..n |-> Out(c, J(c, time + i), In(p1, q1, i), In(p2, q2, i))]]])
    /\ UNCHANGED cmds
Next == \/ \E v \in Values1 : Set1(v)
        \/ \E v \in Values2 : Set2(v)
        \/ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Panning never amplifies, and leaves one side alone
Sides == Kind = "pan" => \A v \in -4..4 : LET l == Out(1, 1, v, 0)[3]
                                              r == Out(2, 1, v, 0)[3]
                                          IN l \in 0..4 /\ r \in 0..4 /\ (l = 4 \/ r = 4)
View == <<time, p1, p2, q1, q2, cmds, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
GainValues == {0, 2, 4, -3, 40}
PanValues == {-4, -3, -1, 0, 2, 4}
=============================================================================
