-------------------------------- MODULE Biquad --------------------------------
(* Biquad filters, sample by sample (property C19), at a quarter of the      *)
(* sample rate, where the designs are rational. QQ is twice the Q; a shelf   *)
(* is given by A, the root of its gain in halves: 1 or 4. The state is kept  *)
(* in fixed point. The gain parameter, in quarters, scales the output.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Type, QQ, A, Channels, Inputs, Gains, Blocks, MaxCmds, MaxBlocks, Burst, SimDepth
VARIABLES x1, x2, y1, y2, gain, gains, cmds, blocks, hist
vars == <<x1, x2, y1, y2, gain, gains, cmds, blocks, hist>>
One == 16384
B == IF A = 4 THEN 4 ELSE 2
\* <<b0, b1, b2, a1, a2, scale>>
Coefficients ==
    CASE Type = "lowpass" -> <<QQ, 2 * QQ, QQ, 0, 2 * (QQ - 1), 2 * (QQ + 1)>>
      [] Type = "highpass" -> <<QQ, -2 * QQ, QQ, 0, 2 * (QQ - 1), 2 * (QQ + 1)>>
      [] Type = "bandpass" -> <<2, 0, -2, 0, 2 * (QQ - 1), 2 * (QQ + 1)>>
      [] Type = "notch" -> <<2 * QQ, 0, 2 * QQ, 0, 2 * (QQ - 1), 2 * (QQ + 1)>>
      [] Type = "lowshelf" -> <<A * (A + 2 + B), 2 * A * (A - 2), A * (A + 2 - B), -4 * (A - 2), 2 * (A + 2 - B), 2 * (A + 2 + B)>>
      [] Type = "highshelf" -> <<A * (A + 2 + B), -2 * A * (A - 2), A * (A + 2 - B), 4 * (A - 2), 2 * (A + 2 - B), 2 * (A + 2 + B)>>
K == Coefficients
\* Rounded division
Div(n, d) == (2 * n + d) \div (2 * d)
Zero == [c \in 1..Channels |-> 0]
Init == x1 = Zero /\ x2 = Zero /\ y1 = Zero /\ y2 = Zero /\ gain = 4 /\ gains = <<>> /\ cmds = 0 /\ blocks = 0 /\ hist = <<>>
Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"
Gain(g) == /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ gains' = Append(gains, g)
           /\ hist' = Append(hist, [op |-> <<"gain", g>>, x |-> <<>>, want |-> <<>>])
           /\ UNCHANGED <<x1, x2, y1, y2, gain, blocks>>
Last(v, q) == IF q = <<>> THEN v ELSE q[Len(q)]
In(v, q, i) == IF i = 0 THEN v ELSE IF i <= Len(q) THEN q[i] ELSE Last(v, q)
Rest(q, n) == SubSeq(q, n + 1, Len(q))
X(p, c, i) == LET k == ((i + 2 * (c - 1) - 1) % Len(p)) + 1 IN IF c % 2 = 0 THEN -p[k] ELSE p[k]
\* The inputs and the outputs of a channel, from the two before the block on
RECURSIVE Run(_, _, _)
Run(p, c, i) ==
    IF i = 0 THEN [x |-> <<x2[c], x1[c]>>, y |-> <<y2[c], y1[c]>>]
    ELSE LET s == Run(p, c, i - 1)
             n == Len(s.x)
             x == X(p, c, i) * One
             y == Div(K[1] * x + K[2] * s.x[n] + K[3] * s.x[n - 1] - K[4] * s.y[n] - K[5] * s.y[n - 1], K[6])
         IN [x |-> Append(s.x, x), y |-> Append(s.y, y)]
Process(n, p) ==
    /\ blocks < MaxBlocks /\ blocks' = blocks + 1
    /\ \E r \in {[c \in 1..Channels |-> Run(p, c, n)]} :
       /\ x1' = [c \in 1..Channels |-> r[c].x[n + 2]] /\ x2' = [c \in 1..Channels |-> r[c].x[n + 1]]
       /\ y1' = [c \in 1..Channels |-> r[c].y[n + 2]] /\ y2' = [c \in 1..Channels |-> r[c].y[n + 1]]
       /\ hist' = Append(hist, [op |-> <<"process", n>>, x |-> [c \in 1..Channels |-> [i \in 1..n |-> X(p, c, i)]],
                                want |-> [c \in 1..Channels |-> [i \in 1..n |-> In(gain, gains, i) * r[c].y[i + 2]]]])
    /\ gain' = In(gain, gains, n) /\ gains' = Rest(gains, n) /\ UNCHANGED cmds
Next == \/ \E g \in Gains : Gain(g)
        \/ \E n \in Blocks, p \in Inputs : Process(n, p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* The design has the gains its type names at 0 and at half the sample rate: sums of coefficients over sums
AtZero == <<K[1] + K[2] + K[3], K[6] + K[4] + K[5]>>
AtHalf == <<K[1] - K[2] + K[3], K[6] - K[4] + K[5]>>
Is(g, n, d) == g[1] * d = n * g[2]
Design ==
    CASE Type = "lowpass" -> Is(AtZero, 1, 1) /\ Is(AtHalf, 0, 1)
      [] Type = "highpass" -> Is(AtZero, 0, 1) /\ Is(AtHalf, 1, 1)
      [] Type = "bandpass" -> Is(AtZero, 0, 1) /\ Is(AtHalf, 0, 1)
      [] Type = "notch" -> Is(AtZero, 1, 1) /\ Is(AtHalf, 1, 1)
      [] Type = "lowshelf" -> Is(AtZero, A * A, 4) /\ Is(AtHalf, 1, 1)
      [] Type = "highshelf" -> Is(AtZero, 1, 1) /\ Is(AtHalf, A * A, 4)
View == <<x1, x2, y1, y2, gain, gains, cmds, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
InputsA == {<<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<8>>, <<-8, 8>>, <<0>>, <<3, -1, 4, 1, -5, 8, 2, -6>>}
=============================================================================
