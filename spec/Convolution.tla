------------------------------ MODULE Convolution ------------------------------
(* The convolution node (property C16). The input of channel c at frame t is *)
(* X(c, t) where the input is on and silence where it is off. An impulse     *)
(* response is a sequence of taps <<delay, amplitude>> and a length. Wet and *)
(* dry gains are in quarters; changes take effect at the next frame, one per *)
(* frame when several are due (C04).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Taps, Blocks, MaxCmds, MaxBlocks, Shown, Burst, SimDepth
VARIABLES on, time, wet, dry, wets, drys, cmds, blocks, hist
vars == <<on, time, wet, dry, wets, drys, cmds, blocks, hist>>
Channels == 1..Len(Taps)
X(c, t) == ((t * 7 + (t \div 5) * 3 + c * 4) % 11) - 5

Init == on = <<>> /\ time = 0 /\ wet = 4 /\ dry = 0 /\ wets = <<>> /\ drys = <<>> /\ cmds = 0 /\ blocks = 0 /\ hist = <<>>
Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"
Wet(v) == /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ wets' = Append(wets, v)
          /\ hist' = Append(hist, [op |-> <<"wet", v>>, at |-> <<>>, want |-> <<>>])
          /\ UNCHANGED <<on, time, wet, dry, drys, blocks>>
Dry(v) == /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ drys' = Append(drys, v)
          /\ hist' = Append(hist, [op |-> <<"dry", v>>, at |-> <<>>, want |-> <<>>])
          /\ UNCHANGED <<on, time, wet, dry, wets, blocks>>
Last(v, q) == IF q = <<>> THEN v ELSE q[Len(q)]
In(v, q, i) == IF i = 0 THEN v ELSE IF i <= Len(q) THEN q[i] ELSE Last(v, q)
Rest(q, n) == SubSeq(q, n + 1, Len(q))

\* on: the stretches <<first frame, frames>> in which the input is on
Heard(s, t) == \E k \in 1..Len(s) : s[k][1] <= t /\ t < s[k][1] + s[k][2]
Input(s, c, t) == IF t >= 0 /\ Heard(s, t) THEN X(c, t) ELSE 0
RECURSIVE Conv(_, _, _, _)
Conv(s, c, t, k) == IF k > Len(Taps[c]) THEN 0 ELSE Taps[c][k][2] * Input(s, c, t - Taps[c][k][1]) + Conv(s, c, t, k + 1)
Looked(n) == IF n <= Shown THEN [k \in 1..n |-> k] ELSE [k \in 1..Shown |-> (n \div Shown) * k - ((k * 3) % (n \div Shown))]
Process(n, x) ==
    /\ blocks < MaxBlocks /\ blocks' = blocks + 1 /\ time' = time + n
    /\ on' = IF x THEN Append(on, <<time, n>>) ELSE on
    /\ wet' = In(wet, wets, n) /\ dry' = In(dry, drys, n) /\ wets' = Rest(wets, n) /\ drys' = Rest(drys, n)
    /\ hist' = Append(hist, [op |-> <<"process", n, IF x THEN 1 ELSE 0>>, at |-> Looked(n),
                             want |-> [c \in Channels |-> [k \in 1..Len(Looked(n)) |->
                                 LET i == Looked(n)[k]
                                     t == time + i - 1
                                 IN In(wet, wets, i) * Conv(on', c, t, 1) + In(dry, drys, i) * Input(on', c, t)]]])
    /\ UNCHANGED cmds
Next == \/ \E v \in {0, 1, 4} : Wet(v) \/ Dry(v)
        \/ \E n \in Blocks, x \in BOOLEAN : Process(n, x)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Longest == LET D == {Taps[c][k][1] : c \in Channels, k \in 1..Len(Taps[1])} IN CHOOSE d \in D : \A e \in D : e <= d
\* Once the input has been silent for the length of the response, so is the output
Dies == (on = <<>> \/ on[Len(on)][1] + on[Len(on)][2] + Longest <= time)
            => \A c \in Channels : Conv(on, c, time, 1) = 0
View == <<on, time, wet, dry, wets, drys, cmds, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
TapsA == <<<<<<0, 2>>, <<1, -1>>, <<3, 3>>>>>>
TapsB == <<<<<<0, 1>>, <<7, -2>>, <<16, 3>>, <<39, 1>>>>, <<<<1, 4>>, <<2, 1>>, <<31, 2>>, <<32, -3>>>>>>
TapsC == <<<<<<0, 1>>, <<100, -2>>, <<255, 3>>, <<256, 1>>, <<299, 2>>>>>>
TapsD == <<<<<<0, 3>>>>, <<<<0, -1>>>>, <<<<0, 2>>>>>>
TapsE == <<<<<<0, 1>>, <<500, -2>>, <<2047, 3>>, <<2048, 1>>, <<4999, 2>>>>, <<<<1, 1>>, <<777, -2>>, <<1023, 3>>, <<4096, 1>>, <<4999, 2>>>>>>
=============================================================================
