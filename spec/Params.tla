------------------------------- MODULE Params -------------------------------
(* The parameters of every node (property C05): the table of defaults and   *)
(* ranges, clamping, targeting, and what is read back.                      *)
(*                                                                          *)
(* Values are in thousandths; a limit that is no whole number of them is    *)
(* given a name, by which the harness knows it exactly.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Instances,  \* sequence of node types
          Requests,   \* values asked for, in thousandths
          MaxCmds, MaxFrames, Blocks, Delays,
          Burst, SimDepth

Inf == 2000000000
R(d, lo, hi) == [d |-> d, lo |-> lo, hi |-> hi, hiName |-> "", dName |-> ""]
Named(d, lo, hi, n) == [d |-> d, lo |-> lo, hi |-> hi, hiName |-> n, dName |-> ""]

Table == [
    gain        |-> [gain |-> R(1000, -Inf, Inf)],
    pan         |-> [pan |-> R(0, -1000, 1000)],
    biquad      |-> [frequency |-> R(1000000, 20000, 20000000),
                     q |-> [R(707, 100, 10000) EXCEPT !.dName = "sqrt1/2"],
                     shelf_gain |-> R(1000, 0, 100000000),
                     gain |-> R(1000, 0, 100000000)],
    compressor  |-> [attack |-> R(1000, 0, 1000000),
                     release |-> R(10000, 0, 10000000),
                     ratio |-> R(3000, 1000, Inf),
                     threshold |-> R(0, -128000, 24000),
                     knee |-> R(0, 0, 24000),
                     wet |-> Named(1000, 0, 3981, "12dB"),
                     dry |-> Named(0, 0, 3981, "12dB")],
    waveshaper  |-> [overdrive |-> R(0, 0, 1000), mix |-> R(1000, 0, 1000)],
    oscillator  |-> [frequency |-> R(440000, 20000, 20000000), gain |-> R(1000, -Inf, Inf)],
    convolution |-> [wet |-> R(1000, 0, 1000), dry |-> R(0, 0, 1000)]
]

VARIABLES frame, value, pending, cmds, hist
vars == <<frame, value, pending, cmds, hist>>

All == {<<i, p>> : i \in 1..Len(Instances), p \in UNION {DOMAIN Table[t] : t \in DOMAIN Table}}
Params == {x \in All : x[2] \in DOMAIN Table[Instances[x[1]]]}
Range(x) == Table[Instances[x[1]]][x[2]]

\* <<thousandths, name>>
Clamp(x, v) == LET r == Range(x) IN
    IF v < r.lo THEN <<r.lo, "">> ELSE IF v > r.hi THEN <<r.hi, r.hiName>> ELSE <<v, "">>

\* A pending change: set (s = e) or ramp from s to e, in frames
None == [s |-> -1, e |-> -1, v |-> <<0, "">>, from |-> <<0, "">>]

\* The value at the last frame before `f`
Read(x, val, pend, f) ==
    LET c == pend[x] IN
    IF c = None \/ f - 1 < c.s THEN [exact |-> val[x]]
    ELSE IF f - 1 >= c.e THEN [exact |-> c.v]
    ELSE [from |-> val[x], to |-> c.v]

Entry(x, val, pend, f) == [i |-> x[1], p |-> x[2], v |-> Read(x, val, pend, f)]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"

Init ==
    /\ frame = 0 /\ cmds = 0
    /\ value = [x \in Params |-> <<Range(x).d, Range(x).dName>>]
    /\ pending = [x \in Params |-> None]
    /\ hist = <<>>

Request(op, x, s, e, v) ==
    /\ cmds < MaxCmds /\ cmds' = cmds + 1 /\ Calm
    /\ pending[x] = None
    /\ pending' = [pending EXCEPT ![x] = [s |-> s, e |-> e, v |-> Clamp(x, v), from |-> value[x]]]
    \* Asking changes nothing yet
    /\ hist' = Append(hist, [op |-> op, values |-> <<Entry(x, value, pending, frame)>>])
    /\ UNCHANGED <<frame, value>>

SetNow(x, v) == Request(<<"now", x[1], x[2], v>>, x, 0, 0, v)
SetAt(x, v, d) == Request(<<"set", x[1], x[2], v, frame + d>>, x, frame + d, frame + d, v)
Ramp(x, v, d, e) == Request(<<"ramp", x[1], x[2], v, frame + d, frame + e>>, x, frame + d, frame + e, v)

Process(n) ==
    /\ frame + n <= MaxFrames
    /\ frame' = frame + n
    /\ value' = [x \in Params |-> IF pending[x] # None /\ frame' - 1 >= pending[x].e THEN pending[x].v ELSE value[x]]
    /\ pending' = [x \in Params |-> IF pending[x] # None /\ frame' - 1 >= pending[x].e THEN None ELSE pending[x]]
    /\ hist' = Append(hist, [op |-> <<"process", n>>,
                             values |-> ToSeq({Entry(x, value, pending, frame') : x \in Params})])
    /\ UNCHANGED cmds

Next ==
    \/ \E x \in Params, v \in Requests :
        \/ SetNow(x, v)
        \/ \E d \in Delays : SetAt(x, v, d) \/ Ramp(x, v, d, d + 3)
    \/ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TableValid == \A t \in DOMAIN Table : \A p \in DOMAIN Table[t] :
    LET r == Table[t][p] IN r.lo <= r.d /\ r.d <= r.hi /\ r.lo < r.hi
\* No request takes a parameter out of its range
InRange == \A x \in Params : LET v == value[x][1] IN Range(x).lo <= v /\ v <= Range(x).hi
\* A parameter changes only if a change was requested of it
OnlyTarget == [][\A x \in Params : value'[x] # value[x] => pending[x] # None]_vars

View == <<frame, value, pending, cmds>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)

Reqs == {-500000000, -700, -100, 0, 300, 900, 1500, 15000, 500000, 15000000, 500000000}
Everything == <<"gain", "gain", "pan", "pan", "biquad", "biquad", "compressor", "compressor", "waveshaper", "waveshaper",
                "oscillator", "oscillator", "convolution", "convolution">>
=============================================================================
