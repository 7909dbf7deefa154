------------------------------- MODULE Graph -------------------------------
(* The audio graph of rawdio: what the system output is, after any history  *)
(* of adding, connecting, disconnecting and dropping nodes (property C01).  *)
(*                                                                          *)
(* Every node is a probe whose output channel c is                          *)
(*     K(n, c) + W(n) * input[c mod inputs]                                 *)
(* so the signal on each channel is an affine function of the system input  *)
(* channels, written <<constant, coefficient of input 1, ...>>.             *)
(* A behaviour is a sequence of API calls; `out` is what the system output  *)
(* must be if a block is processed in that state.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes,      \* set of node numbers
          InCh, OutCh,\* channels of each node
          MaxCh,      \* maximum channel count of the engine
          SysIn, SysOut, \* channels of the system input and output
          MaxConns,   \* bound on simultaneous connections
          Partial,    \* TRUE: channel ranges may be connected
          Readd,      \* TRUE: a dropped node may be replaced by a new one
          SimDepth    \* length of the behaviours printed in simulation

VARIABLES alive,   \* nodes in the graph
          conns,   \* sequence (as a bag) of <<s, d, so, di, cc>>
          insys, outsys, \* nodes connected to the system, or 0
          hist

vars == <<alive, conns, insys, outsys, hist>>
Range(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b

K(n, c) == 10 * n + 3 * c + 1
W(n) == n + 1

Zero == [i \in 1..(SysIn + 1) |-> 0]
Plus(a, b) == [i \in 1..(SysIn + 1) |-> a[i] + b[i]]
Scale(k, a) == [i \in 1..(SysIn + 1) |-> k * a[i]]
Const(k) == [Zero EXCEPT ![1] = k]
SysChannel(c) == IF c < Min(SysIn, MaxCh) THEN [Zero EXCEPT ![c + 2] = 1] ELSE Zero

RECURSIVE OutOf(_, _, _, _), SumConns(_, _, _, _, _)

\* Sum of what the connections cs[i..] deliver to input channel c of node d
SumConns(cs, i, d, c, in) ==
    IF i > Len(cs) THEN Zero
    ELSE LET k == cs[i]
             here == /\ k[2] = d /\ c >= k[4] /\ c < k[4] + k[5]
         IN Plus(IF here THEN OutOf(cs, in, k[1], c - k[4] + k[3]) ELSE Zero,
                 SumConns(cs, i + 1, d, c, in))

InOf(cs, in, n, c) ==
    Plus(SumConns(cs, 1, n, c, in), IF in = n THEN SysChannel(c) ELSE Zero)

OutOf(cs, in, n, c) ==
    IF c >= OutCh[n] THEN Zero
    ELSE IF InCh[n] = 0 THEN Const(K(n, c))
    ELSE Plus(Const(K(n, c)), Scale(W(n), InOf(cs, in, n, c % InCh[n])))

SystemOut(cs, in, o) ==
    [c \in 1..SysOut |->
        IF o = 0 \/ c > MaxCh THEN Zero ELSE OutOf(cs, in, o, c - 1)]

\* Is there a path from a to b?
RECURSIVE Reach(_, _, _)
Reach(cs, frontier, seen) ==
    LET next == {k[2] : k \in {x \in Range(cs) : x[1] \in frontier}} \ seen
    IN IF next = {} THEN seen ELSE Reach(cs, next, seen \union next)
Path(cs, a, b) == b \in Reach(cs, {a}, {a})

\* Bags are kept sorted, so that equal bags are equal states
Less(a, b) == \E i \in 1..5 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Insert(cs, k) ==
    LET i == Cardinality({j \in 1..Len(cs) : ~Less(k, cs[j])})
    IN SubSeq(cs, 1, i) \o <<k>> \o SubSeq(cs, i + 1, Len(cs))

Step(op, a, cs, in, o) ==
    /\ alive' = a /\ conns' = cs /\ insys' = in /\ outsys' = o
    /\ hist' = Append(hist, [op |-> op, out |-> SystemOut(cs, in, o)])

Init ==
    /\ alive = Nodes /\ conns = <<>> /\ insys = 0 /\ outsys = 0
    /\ hist = <<>>

Connectable(s, d) == /\ s # d /\ s \in alive /\ d \in alive
                     /\ OutCh[s] > 0 /\ InCh[d] > 0
                     /\ Len(conns) < MaxConns
                     /\ ~Path(conns, d, s)

Connect(s, d) ==
    /\ Connectable(s, d)
    /\ Step(<<"connect", s, d>>, alive, Insert(conns, <<s, d, 0, 0, OutCh[s]>>),
            insys, outsys)

ConnectChannels(s, d, so, di, cc) ==
    /\ Partial /\ Connectable(s, d)
    /\ so + cc <= OutCh[s] /\ di + cc <= InCh[d]
    /\ Step(<<"connect_channels", s, d, so, di, cc>>, alive,
            Insert(conns, <<s, d, so, di, cc>>), insys, outsys)

Disconnect(s, d) ==
    /\ s \in alive /\ d \in alive /\ s # d
    /\ Step(<<"disconnect", s, d>>, alive,
            SelectSeq(conns, LAMBDA k : ~(k[1] = s /\ k[2] = d)), insys, outsys)

ConnectInput(n) == /\ n \in alive /\ InCh[n] > 0
                   /\ Step(<<"input", n>>, alive, conns, n, outsys)
ConnectOutput(n) == /\ n \in alive /\ OutCh[n] > 0
                    /\ Step(<<"output", n>>, alive, conns, insys, n)

\* Dropping a node removes it, its connections and its connection to the system
Drop(n) ==
    /\ n \in alive
    /\ Step(<<"drop", n>>, alive \ {n},
            SelectSeq(conns, LAMBDA k : k[1] # n /\ k[2] # n),
            IF insys = n THEN 0 ELSE insys, IF outsys = n THEN 0 ELSE outsys)

\* A new node (with a new identity) of the same shape
Add(n) == /\ Readd /\ n \notin alive
          /\ Step(<<"add", n>>, alive \union {n}, conns, insys, outsys)

Next ==
    \/ \E s, d \in Nodes : Connect(s, d) \/ Disconnect(s, d)
    \/ \E s, d \in Nodes : \E so, di \in 0..(MaxCh - 1), cc \in 1..MaxCh :
            ConnectChannels(s, d, so, di, cc)
    \/ \E n \in Nodes : ConnectInput(n) \/ ConnectOutput(n) \/ Drop(n) \/ Add(n)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Properties of the design

TypeOK == /\ alive \subseteq Nodes
          /\ insys \in alive \union {0} /\ outsys \in alive \union {0}
          /\ \A k \in Range(conns) : k[1] \in alive /\ k[2] \in alive

Acyclic == \A k \in Range(conns) : ~Path(conns, k[2], k[1])

\* With no output node the output is silent; with no connections at all only
\* the output node is heard
Silence == outsys = 0 => SystemOut(conns, insys, outsys) = [c \in 1..SysOut |-> Zero]

\* The system input is heard only if the input node reaches the output node
InputIsolation ==
    (outsys # 0 /\ (insys = 0 \/ ~Path(conns, insys, outsys)))
        => \A c \in 1..SysOut, i \in 1..SysIn : SystemOut(conns, insys, outsys)[c][i + 1] = 0

\* Nodes that do not lead to the output make no difference to it
Relevant(cs, o) == SelectSeq(cs, LAMBDA k : Path(cs, k[2], o))
OnlyAncestorsHeard ==
    outsys # 0 => SystemOut(conns, insys, outsys) = SystemOut(Relevant(conns, outsys), insys, outsys)

----------------------------------------------------------------------------
View == <<alive, conns, insys, outsys>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)

Nodes3 == {1, 2, 3}
Nodes4 == {1, 2, 3, 4}
InA == <<2, 1, 2>>       OutA == <<2, 2, 1>>
InB == <<0, 2, 3>>       OutB == <<2, 3, 1>>
InC == <<2, 2, 1, 2>>    OutC == <<2, 1, 2, 2>>
=============================================================================
