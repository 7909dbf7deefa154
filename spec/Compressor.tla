------------------------------ MODULE Compressor ------------------------------
(* The static curve of the compressor (property C18), with an instantaneous  *)
(* envelope. Levels are whole decibels; the channels have the amplitude of   *)
(* the level times the weights of the frame, the mean of which is 1. Ratio 0 *)
(* stands for an infinite one. Wet and dry gains are in quarters.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Thresholds, Knees, Ratios, Wets, Drys, Lo, Hi, Blocks, MaxSets, MaxBlocks, SimDepth
VARIABLES par, fresh, sets, blocks, hist
vars == <<par, fresh, sets, blocks, hist>>

\* The output level less the input level, as a fraction <<n, d>> of decibels
Reduction(e, p) ==
    LET over == e - p.t
        r == IF p.r = 0 THEN 1 ELSE p.r
        lose == IF p.r = 0 THEN 1 ELSE p.r - 1    \* of every r
    IN IF 2 * over <= -p.k THEN <<0, 1>>
       ELSE IF 2 * over >= p.k THEN <<-(over * lose), r>>
       ELSE <<-(lose * (2 * over + p.k) * (2 * over + p.k)), 8 * p.k * r>>

Init == par = [t |-> 0, k |-> 0, r |-> 3, w |-> 4, d |-> 0] /\ fresh = FALSE /\ sets = 0 /\ blocks = 0 /\ hist = <<>>
\* One change of each parameter before the next block
Set(t, k, r, w, d) ==
    /\ ~fresh /\ sets < MaxSets /\ sets' = sets + 1 /\ fresh' = TRUE
    /\ par' = [t |-> t, k |-> k, r |-> r, w |-> w, d |-> d]
    /\ hist' = Append(hist, [op |-> <<"set", t, k, r, w, d>>, want |-> <<>>])
    /\ UNCHANGED blocks
Level(i, s) == Lo + ((i * 7 + s * 5) % (Hi - Lo + 1))
Process(n, s) ==
    /\ blocks < MaxBlocks /\ blocks' = blocks + 1 /\ fresh' = FALSE
    /\ hist' = Append(hist, [op |-> <<"process", n, s, par.w, par.d>>,
                             want |-> [i \in 1..n |-> <<Level(i, s), Reduction(Level(i, s), par)>>]])
    /\ UNCHANGED <<par, sets>>
Next == \/ \E t \in Thresholds, k \in Knees, r \in Ratios, w \in Wets, d \in Drys : Set(t, k, r, w, d)
        \/ \E n \in Blocks, s \in 0..3 : Process(n, s)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* a <= b
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Plus(a, k) == <<a[1] + k * a[2], a[2]>>
Curves == \A e \in (Lo - 1)..(Hi + 1) :
    LET now == Reduction(e, par)
        up == Reduction(e + 1, par)
    IN /\ Leq(now, <<0, 1>>)                           \* never amplifies
       /\ Leq(up, now)                                 \* reduces more the louder
       /\ Leq(now, Plus(up, 1))                        \* but keeps louder louder
       \* at most the slope above the knee: no jump anywhere
       /\ (par.r > 0 => Leq(Plus(now, -1), up))
\* A wider knee never reduces less, and the knee is symmetric: it loses at the threshold an eighth of itself
AtThreshold == par.k > 0 => Reduction(par.t, par)[1] * 8 * (IF par.r = 0 THEN 1 ELSE par.r) =
                            -(IF par.r = 0 THEN 1 ELSE par.r - 1) * par.k * Reduction(par.t, par)[2]
View == <<par, fresh, sets, blocks>>
Emit == hist'[Len(hist')].op[1] = "process" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
ThresholdsA == {-40, -20, 0}
ThresholdsB == {-60, -40, -31, -20, -3, 0, 6}
MinusSixty == -60
=============================================================================
