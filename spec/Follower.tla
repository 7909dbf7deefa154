------------------------------- MODULE Follower -------------------------------
(* The envelope of the compressor (property C18). Each channel has a level   *)
(* that moves towards the size of the input, leaving attack/4 of the way     *)
(* when rising and release/4 when falling. The ratio is infinite: the gain   *)
(* is the threshold over the mean level where that is less than one.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Channels, Attack, Release, Threshold, Inputs, Times, MaxSets, Blocks, MaxBlocks, SimDepth
VARIABLES level, attack, release, fresh, sets, blocks, hist
vars == <<level, attack, release, fresh, sets, blocks, hist>>
One == 65536
Abs(x) == IF x < 0 THEN -x ELSE x
Next1(v, x) == LET c == IF v < x * One THEN attack ELSE release
               IN (v * c + x * One * (4 - c)) \div 4
Init == level = [c \in 1..Channels |-> 0] /\ attack = Attack /\ release = Release /\ fresh = FALSE /\ sets = 0 /\ blocks = 0 /\ hist = <<>>
\* Channel c gets the same pattern, a few frames later and with the other sign
X(p, c, i) == LET k == ((i + 3 * (c - 1) - 1) % Len(p)) + 1 IN IF c % 2 = 0 THEN -p[k] ELSE p[k]
RECURSIVE Levels(_, _, _)
Levels(p, c, i) == IF i = 0 THEN level[c] ELSE Next1(Levels(p, c, i - 1), Abs(X(p, c, i)))
RECURSIVE Total(_, _)
Total(f, c) == IF c = 0 THEN 0 ELSE f[c] + Total(f, c - 1)
Process(n, p) ==
    /\ blocks < MaxBlocks /\ blocks' = blocks + 1 /\ fresh' = FALSE /\ UNCHANGED <<attack, release, sets>>
    /\ LET L == [c \in 1..Channels |-> [i \in 1..n |-> Levels(p, c, i)]] IN
       /\ level' = [c \in 1..Channels |-> IF n = 0 THEN level[c] ELSE L[c][n]]
       /\ hist' = Append(hist, [op |-> <<"process", n>>, x |-> [c \in 1..Channels |-> [i \in 1..n |-> X(p, c, i)]],
                                total |-> [i \in 1..n |-> Total([c \in 1..Channels |-> L[c][i]], Channels)]])
\* A change of the times moves nothing by itself; one change before the next block
Set(a, r) ==
    /\ ~fresh /\ sets < MaxSets /\ sets' = sets + 1 /\ fresh' = TRUE /\ <<a, r>> # <<attack, release>>
    /\ attack' = a /\ release' = r /\ UNCHANGED <<level, blocks>>
    /\ hist' = Append(hist, [op |-> <<"set", a, r>>, x |-> <<>>, total |-> <<>>])
Next == \/ \E a \in Times, r \in Times : Set(a, r)
        \/ \E n \in Blocks, p \in Inputs : Process(n, p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* The level stays within the input's range
Bounded == \A c \in 1..Channels : level[c] \in 0..(16 * One)
View == <<level, attack, release, fresh, sets, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
InputsA == {<<16, 16, 16, 16, 0, 0, 0, 0, 0>>, <<1, 8, 2, 16, 3, 3, 12>>, <<0>>, <<10>>}
=============================================================================
