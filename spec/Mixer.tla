--------------------------------- MODULE Mixer ---------------------------------
(* The mixer (property C11): the matrix in force in every block is the one   *)
(* that all the changes made before it add up to. Levels are in thousandths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS In, Out, Levels, Kind, MaxCmds, MaxBlocks, Burst, Least, SimDepth
VARIABLES matrix, cmds, blocks, hist
vars == <<matrix, cmds, blocks, hist>>

Ins == 1..In
Outs == 1..Out
Initial == [o \in Outs |-> [i \in Ins |->
    CASE Kind = "new" -> 0
      [] Kind = "split" -> 1000
      [] Kind = "unity" -> IF i = o THEN 1000 ELSE 0]]
Init == matrix = Initial /\ cmds = 0 /\ blocks = 0 /\ hist = <<>>

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"
\* For floods: nothing but changes for a while (in simulation)
Ready == IF Least = 0 THEN TRUE ELSE ~Calm \/ cmds >= MaxCmds \/ RandomElement(1..Least) = 1
Set(i, o, v) ==
    /\ cmds < MaxCmds /\ cmds' = cmds + 1 /\ Calm
    /\ matrix' = [matrix EXCEPT ![o][i] = v]
    /\ hist' = Append(hist, [op |-> <<"set", i, o, v>>, m |-> <<>>])
    /\ UNCHANGED blocks
Process ==
    /\ blocks < MaxBlocks /\ Ready /\ blocks' = blocks + 1
    /\ hist' = Append(hist, [op |-> <<"process">>, m |-> matrix])
    /\ UNCHANGED <<matrix, cmds>>
Next == \/ \E i \in Ins, o \in Outs, v \in Levels : Set(i, o, v)
        \/ Process
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* The level in force is the last one set, or the initial one
LastSet(i, o) ==
    LET S == {k \in 1..Len(hist) : hist[k].op[1] = "set" /\ hist[k].op[2] = i /\ hist[k].op[3] = o}
    IN IF S = {} THEN Initial[o][i] ELSE hist[CHOOSE k \in S : \A j \in S : j <= k].op[4]
MostRecent == \A i \in Ins, o \in Outs : matrix[o][i] = LastSet(i, o)
View == <<matrix, cmds, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
LevelsA == {0, 1000, -500}
LevelsB == {0, 1, 500, 999, 1000, 1001, 2000, -1000, 37000}
=============================================================================
