-------------------------------- MODULE Levels --------------------------------
(* Levels (property C21), in whole decibels; Silent is no level at all.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Decibels, Powers, MaxOps, SimDepth
VARIABLES reg, n, hist
vars == <<reg, n, hist>>
Regs == 1..3
Silent == -100000
Floor == -128
\* What a level reads as
Db(x) == IF x < Floor THEN Floor ELSE x
Init == reg = [r \in Regs |-> Silent] /\ n = 0 /\ hist = <<>>
Log(op) == hist' = Append(hist, [op |-> op, reg |-> reg', db |-> [r \in Regs |-> Db(reg'[r])],
                                 order |-> [a \in Regs |-> [b \in Regs |-> IF reg'[a] < reg'[b] THEN -1 ELSE IF reg'[a] > reg'[b] THEN 1 ELSE 0]]])
FromDb(r, d) == /\ reg' = [reg EXCEPT ![r] = IF d <= Floor THEN Silent ELSE d] /\ n' = n + 1 /\ Log(<<"db", r, d>>)
\* A power of ten, as a gain
FromLinear(r, k) == /\ reg' = [reg EXCEPT ![r] = 20 * k] /\ n' = n + 1 /\ Log(<<"linear", r, k>>)
Unity(r) == /\ reg' = [reg EXCEPT ![r] = 0] /\ n' = n + 1 /\ Log(<<"unity", r>>)
Zero(r) == /\ reg' = [reg EXCEPT ![r] = Silent] /\ n' = n + 1 /\ Log(<<"zero", r>>)
Clamp(r, a, b) ==
    /\ reg[a] <= reg[b]
    /\ reg' = [reg EXCEPT ![r] = IF reg[r] < reg[a] THEN reg[a] ELSE IF reg[r] > reg[b] THEN reg[b] ELSE reg[r]] /\ n' = n + 1
    /\ Log(<<"clamp", r, a, b>>)
More == n < MaxOps
Next == \/ \E r \in Regs, d \in Decibels : More /\ FromDb(r, d)
        \/ \E r \in Regs, k \in Powers : More /\ FromLinear(r, k)
        \/ \E r \in Regs : More /\ (Unity(r) \/ Zero(r))
        \/ \E r \in Regs, a \in Regs, b \in Regs : More /\ Clamp(r, a, b)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Decibels are ordered as the levels are
Monotone == \A a \in Regs, b \in Regs : reg[a] <= reg[b] => Db(reg[a]) <= Db(reg[b])
View == <<reg, n>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
DecibelsA == {-200, -128, -127, -20, 0, 6}
PowersA == {-10, -8, -7, -6, 0, 2}
DecibelsB == {-1000, -200, -129, -128, -127, -126, -100, -60, -20, -6, -1, 0, 1, 6, 12, 100, 200}
PowersB == {-300, -15, -10, -9, -8, -7, -6, -5, -1, 0, 1, 2, 7}
=============================================================================
