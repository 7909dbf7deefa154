------------------------------- MODULE Resample -------------------------------
(* Copying audio at another sample rate (property C14): the audio of every   *)
(* named channel, from the named location on, is read at the frames that the *)
(* ratio of the rates denotes, between two frames by linear interpolation,   *)
(* and at the last frame past the end. Everything else is left alone.        *)
(* Frame j of channel c of the source is (7 j + 13 c) % 1024.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rates, Lengths, Offsets, Ch, Count, MaxOps, SimDepth
VARIABLES n, hist
vars == <<n, hist>>
S(c, j) == (7 * j + 13 * c) % 1024
Lesser(x, y) == IF x < y THEN x ELSE y

\* The frames of the result that are looked at: all, or some all over
Some(m) == IF m <= Count THEN [k \in 1..m |-> k - 1]
           ELSE [k \in 1..Count |-> ((m - 1) \div Count) * (k - 1) + ((k * 7) % ((m - 1) \div Count))]
\* q times the value of frame i, p / q the ratio, of the source's channel c from frame f on
Value(p, q, i, c, f, len) ==
    LET whole == (i \div q) * p + ((i % q) * p) \div q
        rest == ((i % q) * p) % q
        last == len - f - 1
        before == f + Lesser(whole, last)
        after == f + Lesser(whole + (IF rest > 0 THEN 1 ELSE 0), last)
    IN (q - rest) * S(c, before) + rest * S(c, after)
Init == n = 0 /\ hist = <<>>
Convert(p, q, slen, dlen, sc, sf, dc, df, cn) ==
    /\ sf < slen /\ df <= dlen /\ sc + cn <= Ch /\ dc + cn <= Ch
    /\ n' = n + 1
    /\ LET at == Some(dlen - df) IN
       hist' = Append(hist, [op |-> <<"convert", p, q, slen, dlen, sc, sf, dc, df, cn>>, at |-> at,
                             want |-> [c \in 1..cn |-> [k \in 1..Len(at) |-> Value(p, q, at[k], sc + c - 1, sf, slen)]]])
Next == /\ n < MaxOps
        /\ \E r \in Rates, l \in Lengths, sc \in 0..(Ch - 1), dc \in 0..(Ch - 1), sf \in Offsets, df \in Offsets, cn \in 0..Ch :
             Convert(r[1], r[2], l[1], l[2], sc, sf, dc, df, cn)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* A value lies between those of the source
InBetween == \A h \in {hist[i] : i \in 1..Len(hist)} : \A c \in DOMAIN h.want : \A k \in DOMAIN h.want[c] :
                 h.want[c][k] >= 0 /\ h.want[c][k] <= h.op[3] * 1023
View == vars
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
RatesA == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<2, 3>>, <<147, 160>>, <<160, 147>>, <<5, 1>>, <<1, 7>>}
LengthsA == {<<1, 1>>, <<5, 5>>, <<4, 9>>, <<20, 7>>, <<3, 0>>}
LengthsB == {<<3000000, 2900000>>}
RatesB == {<<147, 160>>, <<160, 147>>, <<3, 2>>, <<2, 3>>}
=============================================================================
