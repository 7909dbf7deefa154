--------------------------------- MODULE Lanes ---------------------------------
(* Graphs of very many nodes (property C01): lanes of nodes in a row, which   *)
(* all begin at one node that is connected to the system input and end at one *)
(* that is connected to the system output. Every node in a lane adds one to   *)
(* what it is given (the signal of frame f is <<constant, times the input>>). *)
(* Nodes are added by the hundred, links are cut and made again, and nodes in *)
(* the middle are dropped and put back.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lanes, Batches, MaxNodes, MaxOps, Sim, SimDepth
VARIABLES len, cut, gone, hist
vars == <<len, cut, gone, hist>>

\* len[l] nodes; cut[l]: those i whose link to the one before (for the first:
\* the beginning; for len[l] + 1: the end) is missing; gone[l]: those dropped
Init == /\ len = [l \in Lanes |-> 0] /\ cut = [l \in Lanes |-> {}] /\ gone = [l \in Lanes |-> {}] /\ hist = <<>>

\* What the lane delivers at its end, going back from there
RECURSIVE From(_, _, _, _)
From(l, i, c, g) ==
    IF i = 0 THEN <<0, 1>>
    ELSE IF i \in g[l] THEN <<0, 0>>
    ELSE IF i \in c[l] THEN <<1, 0>>
    ELSE LET x == From(l, i - 1, c, g) IN <<x[1] + 1, x[2]>>
\* An empty lane is no connection at all
Lane(l, n, c, g) == IF n[l] = 0 \/ (n[l] + 1) \in c[l] THEN <<0, 0>> ELSE From(l, n[l], c, g)
RECURSIVE Sum(_, _, _, _)
Sum(S, n, c, g) == IF S = {} THEN <<0, 0>>
                   ELSE LET l == CHOOSE l \in S : TRUE
                            x == Lane(l, n, c, g)
                            y == Sum(S \ {l}, n, c, g)
                        IN <<x[1] + y[1], x[2] + y[2]>>

RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET l == CHOOSE l \in S : TRUE IN len[l] + Total(S \ {l})
Log(op) == hist' = Append(hist, [op |-> op, out |-> Sum(Lanes, len', cut', gone')])
More == Len(hist) < MaxOps
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

\* Added at the end of the lane; if there are nodes, the last must be there
Grow(l, k) ==
    /\ More /\ Total(Lanes) + k <= MaxNodes /\ (len[l] = 0 \/ len[l] \notin gone[l])
    /\ len' = [len EXCEPT ![l] = @ + k]
    /\ cut' = [cut EXCEPT ![l] = IF (len[l] + 1) \in @ THEN (@ \ {len[l] + 1}) \cup {len[l] + k + 1} ELSE @]
    /\ UNCHANGED gone /\ Log(<<"grow", l, k>>)
Here(l, i) == i = 0 \/ i = len[l] + 1 \/ (i \in 1..len[l] /\ i \notin gone[l])
Cut(l, i) ==
    /\ More /\ i \notin cut[l] /\ Here(l, i) /\ Here(l, i - 1)
    /\ cut' = [cut EXCEPT ![l] = @ \cup {i}] /\ UNCHANGED <<len, gone>> /\ Log(<<"cut", l, i>>)
Mend(l, i) ==
    /\ More /\ i \in cut[l] /\ Here(l, i) /\ Here(l, i - 1)
    /\ cut' = [cut EXCEPT ![l] = @ \ {i}] /\ UNCHANGED <<len, gone>> /\ Log(<<"mend", l, i>>)
\* Its links go with it
Drop(l, i) ==
    /\ More /\ i \notin gone[l]
    /\ gone' = [gone EXCEPT ![l] = @ \cup {i}] /\ cut' = [cut EXCEPT ![l] = @ \cup {i, i + 1}]
    /\ UNCHANGED len /\ Log(<<"drop", l, i>>)
\* A new one in its place, without links
Put(l, i) ==
    /\ More /\ i \in gone[l]
    /\ gone' = [gone EXCEPT ![l] = @ \ {i}] /\ UNCHANGED <<len, cut>> /\ Log(<<"put", l, i>>)
\* All at once: a whole lane
Clear(l) ==
    /\ More /\ len[l] > 0 /\ (IF Sim THEN RandomElement(1..6) = 1 ELSE TRUE)
    /\ len' = [len EXCEPT ![l] = 0] /\ cut' = [cut EXCEPT ![l] = {}] /\ gone' = [gone EXCEPT ![l] = {}] /\ Log(<<"clear", l>>)

Next == \E l \in Lanes :
    \/ \E k \in Batches : Grow(l, k)
    \/ \E i \in Pick(1..(len[l] + 1)) : len[l] > 0 /\ Cut(l, i)
    \/ \E i \in Pick(cut[l]) : Mend(l, i)
    \/ \E i \in Pick(1..len[l]) : Drop(l, i)
    \/ \E i \in Pick(gone[l]) : Put(l, i)
    \/ Clear(l)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* A lane that is whole delivers the input plus its length, and no lane more
Whole == \A l \in Lanes : (len[l] > 0 /\ cut[l] = {} /\ gone[l] = {}) => Lane(l, len, cut, gone) = <<len[l], 1>>
Most == \A l \in Lanes : Lane(l, len, cut, gone)[1] <= len[l] /\ Lane(l, len, cut, gone)[2] <= 1
GoneIsCut == \A l \in Lanes, i \in 1..(MaxNodes + 1) : i \in gone[l] => i \in cut[l] /\ (i + 1) \in cut[l]
View == <<len, cut, gone, Len(hist)>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
=============================================================================
