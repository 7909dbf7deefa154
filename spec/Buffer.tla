-------------------------------- MODULE Buffer --------------------------------
(* Audio buffers and slices of them (property C14).                          *)
(*                                                                           *)
(* There are two owned buffers. Every operation is made through a view: a    *)
(* buffer sliced any number of times. A cell is a pair <<l, c>>, and stands  *)
(* for k adjacent frames, the i-th of which holds l * (i + 1) + c; k is      *)
(* chosen by the harness, so that every alignment is met. Channels and       *)
(* frames count from 0 in operations, as in the code.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Ch, Fr, Paths, SrcPaths, Gains, Tables, MaxOps, Sim, Ranged, SimDepth
VARIABLES buf, n, hist
vars == <<buf, n, hist>>

Names == {"a", "b"}
Other(b) == IF b = "a" THEN "b" ELSE "a"
Zero == <<0, 0>>
Const(v) == <<0, v>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Times(g, x) == <<g * x[1], g * x[2]>>
\* Values never seen before
Fresh(k) == <<3 + 2 * ((n * 7 + k) % 11), 40 * (n % 9) + k>>
\* Simulation looks at one choice of each
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Lesser(x, y) == IF x < y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x

\* A view: first channel, first frame, channels, frames
Whole == <<0, 0, Ch[1], Fr>>
WholeOf(b) == <<0, 0, IF b = "a" THEN Ch[1] ELSE Ch[2], Fr>>
Slice(v, s) ==
    CASE s[1] = "frames" -> <<v[1], v[2] + s[2], v[3], s[3]>>
      [] s[1] = "channels" -> <<v[1] + s[2], v[2], s[3], v[4]>>
      [] s[1] = "both" -> <<v[1], v[2], s[3], s[2]>>
Fits(v, s) ==
    CASE s[1] = "frames" -> s[2] + s[3] <= v[4]
      [] s[1] = "channels" -> s[2] + s[3] <= v[3]
      [] s[1] = "both" -> s[2] <= v[4] /\ s[3] <= v[3]
View1(b, p) == FoldLeft(Slice, WholeOf(b), p)
ViewFits(b, p) == \A i \in 1..Len(p) : Fits(View1(b, SubSeq(p, 1, i - 1)), p[i])

Cell(m, v, c, f) == m[v[1] + c + 1][v[2] + f + 1]
Contents(b, v) == [c \in 1..v[3] |-> [f \in 1..v[4] |-> Cell(buf[b], v, c - 1, f - 1)]]
\* The buffer m with the cells of the view for which In(c, f) holds replaced by V(c, f)
Update(m, v, In(_, _), V(_, _)) ==
    [c \in DOMAIN m |-> [f \in DOMAIN m[c] |->
        LET vc == c - 1 - v[1]
            vf == f - 1 - v[2]
        IN IF vc >= 0 /\ vc < v[3] /\ vf >= 0 /\ vf < v[4] /\ In(vc, vf) THEN V(vc, vf) ELSE m[c][f]]]

Start(b, chs) == [c \in 1..chs |-> [f \in 1..Fr |-> <<(IF b = "a" THEN 1 ELSE 2) + c, 100 * c + 10 * f + (IF b = "a" THEN 0 ELSE 5)>>]]
Init == buf = [a |-> Start("a", Ch[1]), b |-> Start("b", Ch[2])] /\ n = 0 /\ hist = <<>>

Small(m) == \A c \in DOMAIN m : \A f \in DOMAIN m[c] : Abs(m[c][f][1]) < 2000 /\ Abs(m[c][f][2]) < 20000
Do(b, p, op, m, res) ==
    /\ n' = n + 1
    /\ buf' = [buf EXCEPT ![b] = m] /\ Small(buf'[b])
    /\ hist' = Append(hist, [op |-> op, on |-> b, path |-> p, a |-> buf'.a, b |-> buf'.b, res |-> res])
Read(b, p, op, res) == Do(b, p, op, buf[b], res)

Part(v) == 0..v[4]
Fill(b, p, x) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} :
       \/ Do(b, p, <<"fill", x>>, Update(buf[b], v, LAMBDA c, f : TRUE, LAMBDA c, f : Const(x)), 0)
       \/ x = 0 /\ Do(b, p, <<"clear">>, Update(buf[b], v, LAMBDA c, f : TRUE, LAMBDA c, f : Zero), 0)
       \/ \E ch \in Pick(0..(v[3] - 1)) : Do(b, p, <<"fillch", ch, x>>, Update(buf[b], v, LAMBDA c, f : c = ch, LAMBDA c, f : Const(x)), 0)
\* Single samples: the first of the frames a cell stands for would be different
\* from the others, so the harness does it to each of them
Sample(b, p, x) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E ch \in Pick(0..(v[3] - 1)), fr \in Pick(0..(v[4] - 1)) :
       \/ Do(b, p, <<"set", ch, fr, x>>, Update(buf[b], v, LAMBDA c, f : c = ch /\ f = fr, LAMBDA c, f : Const(x)), 0)
       \/ Do(b, p, <<"addsample", ch, fr, x>>, Update(buf[b], v, LAMBDA c, f : c = ch /\ f = fr, LAMBDA c, f : Plus(Cell(buf[b], v, c, f), Const(x))), 0)
\* Copy, mix, mix with gain, from a view q of the other buffer
Transfer(b, p, q, what, g) ==
    /\ ViewFits(b, p) /\ ViewFits(Other(b), q)
    /\ \E v \in {View1(b, p)}, w \in {View1(Other(b), q)}, src \in {buf[Other(b)]} :
       \E cn \in Pick(0..Lesser(v[3], w[3])), fn \in Pick(0..Lesser(v[4], w[4])) :
          \E sc \in Pick(0..(w[3] - cn)), dc \in Pick(0..(v[3] - cn)), sf \in Pick(0..(w[4] - fn)), df \in Pick(0..(v[4] - fn)) :
          /\ (~Sim /\ (cn = 0 \/ fn = 0)) => sc = 0 /\ dc = 0 /\ sf = 0 /\ df = 0
          /\ LET Inside(c, f) == c >= dc /\ c < dc + cn /\ f >= df /\ f < df + fn
                 S(c, f) == Cell(src, w, c - dc + sc, f - df + sf)
                 V(c, f) == CASE what = "copy" -> S(c, f)
                              [] what = "add" -> Plus(Cell(buf[b], v, c, f), S(c, f))
                              [] what = "addgain" -> Plus(Cell(buf[b], v, c, f), Times(g, S(c, f)))
             IN Do(b, p, <<what, q, sc, sf, dc, df, cn, fn, g>>, Update(buf[b], v, Inside, V), 0)
ApplyGain(b, p, table) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} :
       Do(b, p, <<"applygain", SubSeq(table, 1, v[4])>>, Update(buf[b], v, LAMBDA c, f : TRUE, LAMBDA c, f : Times(table[f + 1], Cell(buf[b], v, c, f))), 0)
\* Ranges of channels and frames
Ranges(v) == {<<c, f, cn, fn>> \in (0..v[3]) \X (0..v[4]) \X (0..v[3]) \X (0..v[4]) : c + cn <= v[3] /\ f + fn <= v[4]}
Within(c, f, r) == c >= r[1] /\ c < r[1] + r[3] /\ f >= r[2] /\ f < r[2] + r[4]
ClearRange(b, p) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E r \in Pick(Ranges(v)) :
       Do(b, p, <<"clearrange", r>>, Update(buf[b], v, LAMBDA c, f : Within(c, f, r), LAMBDA c, f : Zero), 0)
GainRange(b, p, g) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E r \in Pick(Ranges(v)) :
       Do(b, p, <<"gainrange", r, g>>, Update(buf[b], v, LAMBDA c, f : Within(c, f, r), LAMBDA c, f : Times(g, Cell(buf[b], v, c, f))), 0)
\* The frames of a range are copied to another place in the same channels;
\* source and destination may overlap
CopyWithin(b, p) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E r \in Pick(Ranges(v)) : \E to \in Pick(0..(v[4] - r[4])) :
       Do(b, p, <<"copywithin", r, to>>,
          Update(buf[b], v, LAMBDA c, f : Within(c, f, <<r[1], to, r[3], r[4]>>), LAMBDA c, f : Cell(buf[b], v, c, f - to + r[2])), 0)
\* A slice made from a range addresses the same samples
ReadRange(b, p) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E r \in Pick(Ranges(v)) :
       Read(b, p, <<"readrange", r>>, Contents(b, <<v[1] + r[1], v[2] + r[2], r[3], r[4]>>))
FillRange(b, p, x) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E r \in Pick(Ranges(v)) :
       Do(b, p, <<"fillrange", r, x>>, Update(buf[b], v, LAMBDA c, f : Within(c, f, r), LAMBDA c, f : Const(x)), 0)
Duplicate(b, p) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E sc \in Pick(0..(v[3] - 1)), dc \in Pick(0..(v[3] - 1)), sf \in Pick(Part(v)) : \E fn \in Pick(0..(v[4] - sf)) :
       Do(b, p, <<"dup", sc, sf, dc, fn>>,
           Update(buf[b], v, LAMBDA c, f : c = dc /\ f >= sf /\ f < sf + fn, LAMBDA c, f : Cell(buf[b], v, sc, f)), 0)
FillSlice(b, p) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E ch \in Pick(0..(v[3] - 1)), fr \in Pick(Part(v)) :
       Do(b, p, <<"fillslice", ch, fr, [i \in 1..(v[4] - fr) |-> Fresh(i)]>>,
          Update(buf[b], v, LAMBDA c, f : c = ch /\ f >= fr, LAMBDA c, f : Fresh(f - fr + 1)), 0)
\* Interleaved data has its own number of channels and frames
FillInterleaved(b, p, ic, if) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : LET D(c, f) == Fresh(c * 5 + f) IN
          Do(b, p, <<"interleaved", [f \in 1..if |-> [c \in 1..ic |-> D(c - 1, f - 1)]], ic>>,
             Update(buf[b], v, LAMBDA c, f : c < ic /\ f < if, D), 0)
ToInterleaved(b, p, ic, if) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} :
       Read(b, p, <<"tointerleaved", ic, if>>,
            [f \in 1..if |-> [c \in 1..ic |-> IF c <= v[3] /\ f <= v[4] THEN Cell(buf[b], v, c - 1, f - 1) ELSE <<0, 7777>>]])
NewFrom(b, p) == ViewFits(b, p) /\ Read(b, p, <<"frombuffer">>, Contents(b, View1(b, p)))
Extend(b, p, q) ==
    /\ ViewFits(b, p) /\ ViewFits(Other(b), q)
    /\ \E v \in {View1(b, p)}, w \in {View1(Other(b), q)} :
          /\ v[3] = w[3]
          /\ Read(b, p, <<"extend", q>>, [c \in 1..v[3] |-> Contents(b, v)[c] \o Contents(Other(b), w)[c]])
Pad(b, p, extra) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : Read(b, p, <<"pad", extra>>, [c \in 1..v[3] |-> Contents(b, v)[c] \o [i \in 1..extra |-> Zero]])
FromSlice(b, p, chs) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} : \E ch \in Pick(0..(v[3] - 1)), fr \in Pick(Part(v)) :
       Read(b, p, <<"fromslice", ch, fr, chs>>, [c \in 1..chs |-> SubSeq(Contents(b, v)[ch + 1], fr + 1, v[4])])
Silent(b, p) ==
    /\ ViewFits(b, p)
    /\ \E v \in {View1(b, p)} :
       Read(b, p, <<"silent">>, [c \in 1..v[3] |-> IF \A f \in 1..v[4] : Contents(b, v)[c][f] = Zero THEN 1 ELSE 0])

More == n < MaxOps
Next ==
    \/ \E b \in Names, p \in Paths, x \in {0, 6} : More /\ (Fill(b, p, x) \/ Sample(b, p, x))
    \/ \E b \in Names, p \in Paths, q \in SrcPaths, g \in Gains : More /\ (Transfer(b, p, q, IF g = 1 THEN "add" ELSE "addgain", g))
    \/ \E b \in Names, p \in Paths, q \in SrcPaths : More /\ (Transfer(b, p, q, "copy", 0))
    \/ \E b \in Names, p \in Paths, t \in Tables : More /\ (ApplyGain(b, p, t))
    \/ \E b \in Names, p \in Paths : More /\ (Duplicate(b, p) \/ FillSlice(b, p) \/ NewFrom(b, p) \/ Silent(b, p))
    \/ \E b \in Names, p \in Paths, ic \in 0..(Ch[1] + 1), if \in 0..(Fr + 1) : More /\ (FillInterleaved(b, p, ic, if) \/ ToInterleaved(b, p, ic, if))
    \/ \E b \in Names, p \in Paths, q \in SrcPaths : More /\ (Extend(b, p, q))
    \/ \E b \in Names, p \in Paths, k \in 0..3 : More /\ (Pad(b, p, k) \/ FromSlice(b, p, k))
    \/ \E b \in Names, p \in Paths : More /\ Ranged /\ (ClearRange(b, p) \/ CopyWithin(b, p) \/ ReadRange(b, p))
    \/ \E b \in Names, p \in Paths, g \in Gains \cup {0} : More /\ Ranged /\ GainRange(b, p, g)
    \/ \E b \in Names, p \in Paths, x \in {0, 6} : More /\ Ranged /\ FillRange(b, p, x)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Nothing outside the view, and nothing in the other buffer, changes
OnlyTheView == [][LET h == hist'[Len(hist')]
                      v == View1(h.on, h.path)
                  IN /\ buf'[Other(h.on)] = buf[Other(h.on)]
                     /\ \A c \in DOMAIN buf[h.on] : \A f \in 1..Fr :
                          (c - 1 < v[1] \/ c - 1 >= v[1] + v[3] \/ f - 1 < v[2] \/ f - 1 >= v[2] + v[4])
                              => buf'[h.on][c][f] = buf[h.on][c][f]]_vars
View == <<buf, n>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)

\* Slices, and slices of them
Steps1 == {<<"frames", o, k>> : o \in 0..1, k \in 1..2} \cup {<<"frames", 2, 1>>, <<"frames", 3, 0>>, <<"channels", 0, 1>>, <<"channels", 1, 1>>, <<"channels", 2, 0>>, <<"both", 2, 1>>, <<"both", 1, 2>>}
PathsA == {<<>>} \cup {<<s>> : s \in Steps1}
SrcA == {<<>>, <<<<"frames", 1, 2>>>>}
PathsB == {<<>>, <<<<"frames", 1, 2>>, <<"frames", 1, 1>>>>, <<<<"channels", 1, 1>>, <<"frames", 1, 2>>>>, <<<<"frames", 1, 2>>, <<"channels", 1, 1>>>>, <<<<"both", 2, 2>>, <<"channels", 1, 1>>>>}
SrcB == {<<>>, <<<<"frames", 1, 2>>, <<"channels", 1, 1>>>>}
TablesA == {<<1, 1, 1>>, <<0, 0, 0>>, <<2, 0, 1>>, <<0, 1, -3>>, <<1, 1, 2>>, <<0, 0, 2>>}
PathsC == {<<>>, <<<<"frames", 1, 4>>>>, <<<<"frames", 2, 3>>, <<"frames", 1, 2>>>>, <<<<"channels", 1, 2>>>>, <<<<"channels", 1, 2>>, <<"channels", 1, 1>>>>,
    <<<<"frames", 1, 3>>, <<"channels", 1, 2>>>>, <<<<"channels", 0, 2>>, <<"frames", 0, 3>>, <<"frames", 2, 1>>>>, <<<<"both", 4, 2>>>>, <<<<"both", 4, 3>>, <<"frames", 1, 3>>, <<"channels", 1, 2>>>>,
    <<<<"frames", 5, 0>>>>, <<<<"channels", 2, 0>>>>}
TablesC == {<<1, 1, 1, 1, 1>>, <<0, 0, 0, 0, 0>>, <<1, 0, -1, 2, 1>>, <<0, 0, 0, 0, 2>>, <<1, 1, 1, 0, 0>>}
GainsA == {1, 3}
GainsC == {-1, 0, 1, 2}
ChA == <<2, 2>>
ChC == <<3, 2>>
=============================================================================
