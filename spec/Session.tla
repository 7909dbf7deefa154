------------------------------- MODULE Session -------------------------------
(* Sessions of the whole public API (property C20): nodes of every kind come *)
(* and go, are connected, automated and sent events, with extreme values and *)
(* times, notifications left unread, queues flooded, and blocks of any size. *)
(* The specification keeps what makes a call valid (acyclic graphs, channels *)
(* within limits, the room in bounded event queues), and a bound in decades  *)
(* on what every node can put out: it never lets the bound of a session      *)
(* exceed what a sample can hold, so that every sample must be finite, and   *)
(* within its bound. The rest is the code's: every call has to return.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxChannels, Inputs, Decades, Styles, Frames, Limit, Capacity, MaxOps, SimDepth
VARIABLES node, edges, in, out, system, started, frames, pend, crowd, n, hist
vars == <<node, edges, in, out, system, started, frames, pend, crowd, n, hist>>

Kinds == {"adsr", "biquad", "compressor", "convolution", "envelope", "gain", "mixer", "oscillator", "pan", "recorder", "sampler", "waveshaper"}
None == [kind |-> "none", ch |-> 0, decades |-> 0]
Silent == -60
Live == {x \in Slots : node[x].kind # "none"}
Ins(x) == CASE node[x].kind \in {"oscillator", "sampler"} -> 0 [] node[x].kind = "pan" -> 2 [] OTHER -> node[x].ch
Outs(x) == CASE node[x].kind \in {"recorder", "envelope"} -> 0 [] node[x].kind = "pan" -> 2 [] OTHER -> node[x].ch
Parameters(k) == CASE k = "biquad" -> 4 [] k = "compressor" -> 7 [] k \in {"convolution", "oscillator", "waveshaper"} -> 2
                   [] k \in {"gain", "pan"} -> 1 [] OTHER -> 0
\* The factor by which a node may amplify, to begin with, and the least a node may put out at most
Base(k) == CASE k = "biquad" -> 5 [] k = "convolution" -> 4 [] k \in {"compressor", "mixer", "oscillator", "pan", "waveshaper"} -> 1
             [] k = "sampler" -> 2 [] OTHER -> 0
Floor(k) == IF k \in {"oscillator", "sampler", "waveshaper"} THEN 0 ELSE Silent
\* What a parameter adds to it
IsGain(k, p) == (k = "gain" /\ p = 0) \/ (k = "oscillator" /\ p = 1)
Extra(k, p, v) == CASE IsGain(k, p) -> IF v > 0 THEN v ELSE 0
                    [] k = "biquad" /\ p = 2 -> 12 [] k = "biquad" /\ p = 3 -> 5
                    [] k = "compressor" /\ p \in {5, 6} -> 1
                    [] OTHER -> 0
\* It is never less than it was with another value
Higher(a, b) == IF a > b THEN a ELSE b
Decade(x, nd, i) == Higher(Floor(nd[x].kind), IF i[x] = Silent THEN Silent ELSE i[x]) + nd[x].decades

Sources(e, x) == {y \in Slots : \E c \in e : c.from = y /\ c.to = x}
Count(e, x) == Cardinality({c \in e : c.to = x})
RECURSIVE Highest(_, _, _)
Highest(S, nd, i) == IF S = {} THEN Silent ELSE LET y == CHOOSE y \in S : TRUE IN Higher(Decade(y, nd, i), Highest(S \ {y}, nd, i))
\* What reaches each node, in the order of the slots, and ever has
RECURSIVE Flow(_, _, _, _, _)
Flow(x, nd, e, sys, i) ==
    IF x \notin Slots THEN i
    ELSE LET from == Highest(Sources(e, x), nd, i)
             own == IF sys = x THEN frames[2] ELSE Silent
             sum == Higher(from, own) + (IF Count(e, x) > 1 \/ (sys = x /\ Count(e, x) > 0) THEN 1 ELSE 0)
         IN  Flow(x + 1, nd, e, sys, [i EXCEPT ![x] = Higher(@, sum)])

Bounds(nd, i) == [x \in Slots |-> Decade(x, nd, i)]
Fits(nd, i) == \A x \in Slots : nd[x].kind # "none" => Decade(x, nd, i) <= Limit

Init == /\ node = [x \in Slots |-> None] /\ edges = {} /\ in = [x \in Slots |-> Silent]
        /\ out = 0 /\ system = 0 /\ started = FALSE /\ pend = [x \in Slots |-> 0] /\ crowd = 0 /\ n = 0
        \* The frames so far, and the decades of the input
        /\ frames \in {<<0, d>> : d \in Inputs}
        /\ hist = <<[op |-> <<"engine", frames[2]>>, silent |-> TRUE, decades |-> Silent, frames |-> 0]>>

Log(op) == /\ n' = n + 1
           /\ hist' = Append(hist, [op |-> op, silent |-> ~started' \/ out' = 0 \/ (out' > 0 /\ node'[out'].kind = "none"),
                                    decades |-> IF out' = 0 THEN Silent ELSE Decade(out', node', in'), frames |-> frames'[1]])
\* A change of nodes, edges or the input, if its bounds fit
Change(nd, e, sys, op) ==
    LET i == Flow(1, nd, e, sys, in)
    IN  /\ Fits(nd, i) /\ out' = out /\ node' = nd /\ edges' = e /\ system' = sys /\ in' = i
        /\ UNCHANGED <<started, frames, crowd>> /\ Log(op)
More == n < MaxOps
Create(x, k, ch, s) ==
    /\ node[x].kind = "none"
    /\ Change([node EXCEPT ![x] = [kind |-> k, ch |-> IF k = "pan" THEN 2 ELSE ch, decades |-> Base(k)]], edges, system, <<"create", x, k, ch, s>>)
    /\ pend' = [pend EXCEPT ![x] = IF k = "sampler" THEN 2 ELSE 0]
\* The slot can be used again: what was connected to it isn't any more
Drop(x) ==
    /\ node[x].kind # "none"
    /\ node' = [node EXCEPT ![x] = None] /\ edges' = {c \in edges : c.from # x /\ c.to # x}
    /\ in' = [in EXCEPT ![x] = Silent] /\ pend' = [pend EXCEPT ![x] = 0]
    /\ system' = (IF system = x THEN 0 ELSE system)
    /\ out' = (IF out = x THEN 0 ELSE out)
    /\ UNCHANGED <<started, frames, crowd>> /\ Log(<<"drop", x>>)
\* All of the outputs, to as many of the inputs
Connect(x, y) ==
    /\ x < y /\ x \in Live /\ y \in Live /\ Count(edges, y) < 8
    /\ Change(node, edges \cup {[from |-> x, to |-> y, id |-> n]}, system, <<"connect", x, y>>) /\ UNCHANGED pend
Part(x, y, a, b, m) ==
    /\ x < y /\ x \in Live /\ y \in Live /\ Count(edges, y) < 8
    /\ a + m <= Outs(x) /\ b + m <= Ins(y)
    /\ Change(node, edges \cup {[from |-> x, to |-> y, id |-> n]}, system, <<"part", x, y, a, b, m>>) /\ UNCHANGED pend
Disconnect(x, y) ==
    /\ x < y /\ x \in Live /\ y \in Live
    /\ Change(node, {c \in edges : ~(c.from = x /\ c.to = y)}, system, <<"disconnect", x, y>>) /\ UNCHANGED pend
ToOutput(x) ==
    /\ x \in Live /\ out' = x /\ UNCHANGED <<node, edges, in, system, started, frames, pend, crowd>> /\ Log(<<"output", x>>)
FromInput(x) == /\ x \in Live /\ Change(node, edges, x, <<"input", x>>) /\ UNCHANGED pend
\* Values are classes (least, most, in between, default, above, below), or decades where the range has no end
Set(x, p, v, d, how, when, dur) ==
    /\ x \in Live /\ p < Parameters(node[x].kind)
    /\ LET k == node[x].kind
           positive == (k = "biquad" /\ p < 2) \/ (k = "compressor" /\ p = 2) \/ (k = "oscillator" /\ p = 0)
           w == IF IsGain(k, p) THEN d ELSE v
           h == IF how = "exp" /\ ~positive THEN "lin" ELSE how
       IN  /\ Change([node EXCEPT ![x].decades = Higher(@, Base(k) + Extra(k, p, w))], edges, system, <<"set", x, p, w, h, when, dur>>)
    /\ UNCHANGED pend
Cancel(x, p, when) ==
    /\ x \in Live /\ p < Parameters(node[x].kind)
    /\ Change(node, edges, system, <<"cancel", x, p, when>>) /\ UNCHANGED pend
\* The queue of a sampler has room for so many events
Event(x, what, when, a, b) ==
    /\ x \in Live /\ node[x].kind \in {"sampler", "adsr", "recorder", "mixer"}
    /\ node[x].kind = "sampler" => pend[x] < Capacity
    /\ pend' = [pend EXCEPT ![x] = IF node[x].kind = "sampler" THEN @ + 1 ELSE @]
    /\ Change([node EXCEPT ![x].decades = IF node[x].kind = "mixer" THEN Higher(@, 1 + Extra("gain", 0, a)) ELSE @], edges, system,
              <<"event", x, what, when, a, b>>)
   
Still == UNCHANGED <<node, edges, in, out, system, pend>>
Turn(on) == started' = on /\ Still /\ UNCHANGED <<frames, crowd>> /\ Log(<<IF on THEN "start" ELSE "stop">>)
Collect == Still /\ UNCHANGED <<started, frames, crowd>> /\ Log(<<"collect">>)
\* More than any queue is made for
Flood(x, what) ==
    /\ what = "events" => x \in Live /\ node[x].kind \in {"adsr", "recorder", "mixer"}
    /\ what = "changes" => x \in Live /\ Parameters(node[x].kind) > 0 /\ node[x].kind \notin {"gain", "oscillator"}
    /\ Change(IF what = "changes" THEN [node EXCEPT ![x].decades = Higher(@, Base(node[x].kind) + Extra(node[x].kind, 0, 0))] ELSE node,
              edges, system, <<"flood", x, what>>) /\ UNCHANGED pend
Crowd == crowd' = 1 - crowd /\ Still /\ UNCHANGED <<started, frames>> /\ Log(<<"crowd", 1 - crowd>>)
Heard(x) == \E c \in edges : c.from = x \/ c.to = x
Block(m) ==
    /\ crowd = 1 => m <= 100
    /\ frames' = IF started THEN <<frames[1] + m, frames[2]>> ELSE frames
    /\ pend' = [x \in Slots |-> IF started /\ m > 0 /\ Heard(x) THEN 0 ELSE pend[x]]
    /\ UNCHANGED <<node, edges, in, out, system, started, crowd>> /\ Log(<<"block", m>>)

\* In simulation one choice of each
Pick(S) == {RandomElement(S)}
Lucky(k) == RandomElement(1..k) = 1
Times == {-2, -1, 0, 1, 5, 40, 700, 5000, 1000000}
Durations == {0, 1, 2, 30, 900, 1000000}
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Pairs == {p \in Live \X Live : p[1] < p[2]}
WithParameters == {x \in Live : Parameters(node[x].kind) > 0}
WithEvents == {x \in Live : node[x].kind \in {"sampler", "adsr", "recorder", "mixer"}}
Next ==
    \/ (More /\ \E x \in One(Slots \ Live), k \in Pick(Kinds), ch \in Pick(1..MaxChannels), s \in Pick(Styles) : Create(x, k, ch, s))
    \/ (More /\ Lucky(8) /\ \E x \in One(Live) : Drop(x))
    \/ \E w \in {1, 2} : More /\ \E p \in One(Pairs) : Connect(p[1], p[2])
    \/ \E w \in {1, 2} : More /\ \E p \in One(Pairs), a \in Pick({0, 0, 1, 2}), b \in Pick({0, 1, 2}), m \in Pick({1, 2, 3}) : Part(p[1], p[2], a, b, m)
    \/ (More /\ Lucky(4) /\ \E p \in One(Pairs) : Disconnect(p[1], p[2]))
    \/ (More /\ (out = 0 \/ Lucky(4)) /\ \E x \in One(Live) : ToOutput(x))
    \/ (More /\ (system = 0 \/ Lucky(4)) /\ \E x \in One(Live) : FromInput(x))
    \/ \E w \in {1, 2, 3} : More /\ \E x \in One(WithParameters) : \E p \in Pick(0..Parameters(node[x].kind) - 1), v \in Pick(0..5), d \in Pick(Decades),
            h \in Pick({"now", "at", "lin", "exp"}), t \in Pick(Times), u \in Pick(Durations) : Set(x, p, v, d, h, t, u)
    \/ (More /\ Lucky(3) /\ \E x \in One(WithParameters) : \E p \in Pick(0..Parameters(node[x].kind) - 1), t \in Pick(Times) : Cancel(x, p, t))
    \/ \E w \in {1, 2} : More /\ \E x \in One(WithEvents), what \in Pick(0..8), t \in Pick(Times), a \in Pick(Decades), b \in Pick(0..5) : Event(x, what, t, a, b)
    \/ (More /\ (IF started THEN Lucky(12) ELSE Lucky(2)) /\ Turn(~started))
    \/ (More /\ Lucky(8) /\ Collect)
    \/ (More /\ Lucky(20) /\ \E x \in One(Live), what \in Pick({"events", "changes", "connections", "nodes"}) : Flood(x, what))
    \/ (More /\ Lucky(60) /\ Crowd)
    \/ \E w \in {1, 2} : More /\ (Cardinality(Live) > 1 \/ Lucky(8)) /\ \E m \in Pick(Frames) : Block(m)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Acyclic == \A c \in edges : c.from < c.to /\ c.from \in Live /\ c.to \in Live
Bounded == Fits(node, in)
Room == \A x \in Slots : pend[x] <= Capacity
View == <<node, edges, in, out, system, started, frames, pend, crowd, n>>
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
StylesA == 0..11
FramesA == {0, 1, 2, 3, 17, 64, 100, 513, 1000}
DecadesA == {-30, -3, 0, 1, 6, 12}
InputsA == {-40, 0, 4, 15}
=============================================================================
