------------------------------ MODULE Oscillator ------------------------------
(* The oscillator (property C15). The phase is counted in units of one over  *)
(* the sample rate, so that it is exact; a frame moves it on by the          *)
(* frequency and outputs the wavetable there. Of several changes of a        *)
(* parameter that are due, one is taken each frame (C04).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sr, Table, Start, Freqs, Gains, Blocks, MaxCmds, MaxBlocks, Shown, Burst, SimDepth
VARIABLES phase, freq, gain, freqs, gains, cmds, blocks, hist
vars == <<phase, freq, gain, freqs, gains, cmds, blocks, hist>>
L == Len(Table)

\* Sr times the wavetable, linearly interpolated at the phase
Wave(p) == LET whole == (p * L) \div Sr
               rest == (p * L) % Sr
               next == (whole + 1) % L
           IN (Sr - rest) * Table[whole + 1] + rest * Table[next + 1]
Init == phase = 0 /\ freq = Start /\ gain = 4 /\ freqs = <<>> /\ gains = <<>> /\ cmds = 0 /\ blocks = 0 /\ hist = <<>>

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"
\* Out of range values are clamped (C05)
Clamp(f) == IF f < 20 THEN 20 ELSE IF f > 20000 THEN 20000 ELSE f
Freq(f) == /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ freqs' = Append(freqs, Clamp(f))
           /\ hist' = Append(hist, [op |-> <<"freq", f>>, at |-> <<>>, want |-> <<>>])
           /\ UNCHANGED <<phase, freq, gain, gains, blocks>>
Gain(g) == /\ cmds < MaxCmds /\ Calm /\ cmds' = cmds + 1 /\ gains' = Append(gains, g)
           /\ hist' = Append(hist, [op |-> <<"gain", g>>, at |-> <<>>, want |-> <<>>])
           /\ UNCHANGED <<phase, freq, gain, freqs, blocks>>
\* i * freq % Sr without large numbers
RECURSIVE Far(_, _)
Far(i, f) == IF i = 0 THEN 0 ELSE IF i % 2 = 0 THEN (2 * Far(i \div 2, f)) % Sr ELSE (Far(i - 1, f) + f) % Sr
\* The value in frame i of a block, and what is left after n frames
Last(v, q) == IF q = <<>> THEN v ELSE q[Len(q)]
In(v, q, i) == IF i = 0 THEN v ELSE IF i <= Len(q) THEN q[i] ELSE Last(v, q)
Rest(q, n) == SubSeq(q, n + 1, Len(q))
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE (In(freq, freqs, i) + Sum(i - 1)) % Sr
PhaseAfter(i) == IF i <= Len(freqs) THEN (phase + Sum(i)) % Sr
                 ELSE (phase + Sum(Len(freqs)) + Far(i - Len(freqs), Last(freq, freqs) % Sr)) % Sr
Looked(n) == IF n <= Shown THEN [k \in 1..n |-> k] ELSE [k \in 1..Shown |-> (n \div Shown) * k]
Process(n) ==
    /\ blocks < MaxBlocks /\ blocks' = blocks + 1
    /\ phase' = PhaseAfter(n)
    /\ hist' = Append(hist, [op |-> <<"process", n>>, at |-> Looked(n),
                             want |-> [k \in 1..Len(Looked(n)) |-> In(gain, gains, Looked(n)[k]) * Wave(PhaseAfter(Looked(n)[k]))]])
    /\ freq' = In(freq, freqs, n) /\ gain' = In(gain, gains, n)
    /\ freqs' = Rest(freqs, n) /\ gains' = Rest(gains, n) /\ UNCHANGED cmds
Next == \/ \E f \in Freqs : Freq(f)
        \/ \E g \in Gains : Gain(g)
        \/ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Extreme(S, Better(_, _)) == CHOOSE x \in S : \A y \in S : Better(x, y) \/ x = y
Values == {Table[i] : i \in 1..L}
\* The output never leaves the range of the wavetable
InTable == /\ phase \in 0..(Sr - 1)
           /\ Wave(phase) <= Sr * Extreme(Values, LAMBDA x, y : x > y)
           /\ Wave(phase) >= Sr * Extreme(Values, LAMBDA x, y : x < y)
\* Changing a parameter never moves the phase
Continuous == [][(freqs' # freqs \/ gains' # gains) /\ blocks' = blocks => phase' = phase]_vars
View == <<phase, freq, gain, freqs, gains, cmds, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
TableA == <<0, 3, -2, 5>>
TableB == <<1, -4, 7>>
TableC == <<-1, 0, 2, 2, 9, -9, 4>>
GainsA == {-4, 0, 2}
=============================================================================
