--------------------------------- MODULE Time ---------------------------------
(* Timestamps (property C21), in units of which the amounts that are given   *)
(* in frames, beats, seconds and durations are whole numbers: 1/7056000 of a *)
(* second, for times to a few minutes, or a quarter of one, for years.       *)
(* err counts the roundings a timestamp has been through.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Units, Amounts, MaxOps, SimDepth
VARIABLES reg, err, n, hist
vars == <<reg, err, n, hist>>
\* <<unit, parameter, size, times>>: so many quarters of a second, frames at a rate, quarters of a beat at a tempo, or
\* parts of a second are so many units
Fine == {<<"seconds", 4, 1764000, 1>>, <<"duration", 1000, 7056, 1>>, <<"duration", 16000, 441, 1>>,
         <<"samples", 44100, 160, 1>>, <<"samples", 48000, 147, 1>>, <<"samples", 22050, 320, 1>>, <<"samples", 88200, 80, 1>>, <<"samples", 8000, 882, 1>>,
         <<"beats", 60, 1764000, 1>>, <<"beats", 120, 882000, 1>>, <<"beats", 90, 1176000, 1>>, <<"beats", 100, 1058400, 1>>, <<"beats", 175, 604800, 1>>}
Coarse == {<<"seconds", 4, 1, 1>>, <<"duration", 4, 1, 1>>, <<"samples", 44100, 1, 11025>>, <<"samples", 48000, 1, 12000>>, <<"samples", 192000, 3, 144000>>,
           <<"samples", 8000, 1, 2000>>, <<"beats", 60, 1, 1>>, <<"beats", 120, 1, 2>>, <<"beats", 90, 2, 3>>, <<"beats", 175, 12, 35>>}
Regs == 1..3
Limit == 2000000000
Fits(x) == x < Limit /\ x > -Limit
Room(k, size) == k < Limit \div size /\ k > -(Limit \div size)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Halves(x) == IF Fits(x) THEN x ELSE 0
Init == reg = [r \in Regs |-> 0] /\ err = [r \in Regs |-> 0] /\ n = 0 /\ hist = <<>>
Log(op) == hist' = Append(hist, [op |-> op, reg |-> reg', err |-> err',
                                 order |-> [a \in Regs |-> [b \in Regs |-> IF reg'[a] < reg'[b] THEN -1 ELSE IF reg'[a] > reg'[b] THEN 1 ELSE 0]]])
From(r, u, k) ==
    /\ Room(k, u[3]) /\ (u[1] = "duration" => k >= 0)
    /\ reg' = [reg EXCEPT ![r] = k * u[3]] /\ err' = [err EXCEPT ![r] = 1] /\ n' = n + 1
    /\ Log(<<"from", r, u[1], u[2], k, u[4]>>)
Inc(r, q, u, k) ==
    /\ u[1] # "duration" /\ (u[1] = "samples" => k >= 0) /\ Room(k, u[3])
    /\ reg[q] \div 2 + (k * u[3]) \div 2 < 1000000000 /\ reg[q] \div 2 + (k * u[3]) \div 2 > -1000000000
    /\ reg' = [reg EXCEPT ![r] = reg[q] + k * u[3]] /\ err' = [err EXCEPT ![r] = err[q] + 1] /\ n' = n + 1
    /\ Log(<<"inc", r, q, u[1], u[2], k, u[4]>>)
Add(r, a, b) ==
    /\ reg[a] \div 2 + reg[b] \div 2 < 1000000000 /\ reg[a] \div 2 + reg[b] \div 2 > -1000000000
    /\ reg' = [reg EXCEPT ![r] = reg[a] + reg[b]] /\ err' = [err EXCEPT ![r] = err[a] + err[b]] /\ n' = n + 1
    /\ Log(<<"add", r, a, b>>)
Sub(r, a, b) ==
    /\ reg[a] \div 2 - reg[b] \div 2 < 1000000000 /\ reg[a] \div 2 - reg[b] \div 2 > -1000000000
    /\ reg' = [reg EXCEPT ![r] = reg[a] - reg[b]] /\ err' = [err EXCEPT ![r] = err[a] + err[b]] /\ n' = n + 1
    /\ Log(<<"sub", r, a, b>>)
\* The beginning of time, or a timestamp of nothing in particular
Zero(r, how) ==
    /\ reg' = [reg EXCEPT ![r] = 0] /\ err' = [err EXCEPT ![r] = 0] /\ n' = n + 1
    /\ Log(<<how, r>>)
More == n < MaxOps
Next == \/ \E r \in Regs, u \in Units, k \in Amounts : More /\ From(r, u, k)
        \/ \E r \in Regs, q \in Regs, u \in Units, k \in Amounts : More /\ Inc(r, q, u, k)
        \/ \E r \in Regs, how \in {"zero", "default"} : More /\ Zero(r, how)
        \/ \E r \in Regs, a \in Regs, b \in Regs : More /\ (Add(r, a, b) \/ Sub(r, a, b))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Every operation touches one register
OneAtATime == [][\E r \in Regs : \A q \in Regs \ {r} : reg'[q] = reg[q]]_vars
View == <<reg, err, n>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
AmountsA == {0, 1, -1, 7}
AmountsB == {0, 1, -1, 2, 3, 7, 100, 1001, 44100, 123457}
AmountsC == {0, 1, -1, 5, 1001, 400001, 30000000, 100000000}
=============================================================================
