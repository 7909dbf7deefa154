------------------------------- MODULE Envelope -------------------------------
(* The envelope meter (property C09). Levels are in units of 1/Scale and the *)
(* follower moves Keep quarters of the way less than all of it towards the   *)
(* input in each frame: level' = (level * c + |input| * (4 - c)) / 4, where  *)
(* c is Attack when the input is above the level and Release otherwise.      *)
(* Integer division loses at most a few units in all, which the conformance  *)
(* check allows for.                                                         *)
(* Notifications are due every Num/Den frames: the k-th report is made after *)
(* frame ceiling(k * Num/Den) and has the peak of every channel since the    *)
(* last one.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Channels, Attack, Release, Num, Den, Patterns, Blocks, MaxFrames, MaxOps, Safe, Burst, SimDepth
VARIABLES clock, level, peak, due, sent, got, hist
vars == <<clock, level, peak, due, sent, got, hist>>

Scale == 4096
Ch == 1..Channels
Abs(x) == IF x < 0 THEN -x ELSE x
Follow(l, x) == LET c == IF l < x THEN Attack ELSE Release IN (l * c + x * (4 - c)) \div 4
Max(a, b) == IF a > b THEN a ELSE b
Input(p, f, c) == p[((f + c) % Len(p)) + 1]

Init == /\ clock = 0 /\ level = [c \in Ch |-> 0] /\ peak = [c \in Ch |-> 0] /\ due = Num
        /\ sent = <<>> /\ got = <<>> /\ hist = <<>>

\* One frame. due: how far off (in Den-ths of a frame) the next report is
Frame(s, p) ==
    LET lv == [c \in Ch |-> Follow(s.level[c], Abs(Input(p, s.f, c)))]
        pk == [c \in Ch |-> Max(s.peak[c], lv[c])]
        left == s.due - Den
    IN IF left <= 0
       THEN [f |-> s.f + 1, level |-> lv, peak |-> [c \in Ch |-> 0], due |-> left + Num, sent |-> Append(s.sent, pk)]
       ELSE [f |-> s.f + 1, level |-> lv, peak |-> pk, due |-> left, sent |-> s.sent]
RECURSIVE Frames(_, _, _)
Frames(s, p, n) == IF n = 0 THEN s ELSE Frames(Frame(s, p), p, n - 1)
State == [f |-> clock, level |-> level, peak |-> peak, due |-> due, sent |-> sent]

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"

Process(n, i) ==
    LET s == Frames(State, Patterns[i], n) IN
    /\ clock + n <= MaxFrames /\ Len(hist) < MaxOps
    /\ clock' = s.f /\ level' = s.level /\ peak' = s.peak /\ due' = s.due /\ sent' = s.sent
    /\ hist' = Append(hist, [op |-> <<"process", n, [c \in Ch |-> [f \in 1..n |-> Input(Patterns[i], clock + f - 1, c)]]>>, x |-> <<>>])
    /\ UNCHANGED got
\* All the reports that are waiting are collected. When there are more than is
\* safe, only the first of them need have been kept
Collect ==
    /\ Calm /\ Len(hist) < MaxOps
    /\ got' = Append(got, [r |-> sent, keep |-> IF Len(sent) * Channels <= Safe THEN Len(sent) ELSE Safe \div Channels])
    /\ sent' = <<>>
    /\ hist' = Append(hist, [op |-> <<"collect">>, x |-> <<>>])
    /\ UNCHANGED <<clock, level, peak, due>>
Take ==
    /\ Calm /\ Len(hist) < MaxOps /\ got # <<>>
    /\ got' = <<>>
    /\ hist' = Append(hist, [op |-> <<"take">>, x |-> got])
    /\ UNCHANGED <<clock, level, peak, due, sent>>
Next == \/ \E n \in Blocks, i \in 1..Len(Patterns) : Process(n, i)
        \/ Collect
        \/ Take
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Bounded == \A c \in Ch : level[c] >= 0 /\ level[c] <= Scale /\ (peak[c] # 0 => peak[c] >= level[c])
\* The number of reports is that of the periods that have passed
ReportsSoFar == (clock * Den) \div Num
Waiting(q) == LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Len(q[i].r) + Sum(i - 1) IN Sum(Len(q))
Rate == (\A i \in 1..Len(hist) : hist[i].op[1] # "take") => Len(sent) + Waiting(got) = ReportsSoFar
DueInTime == due > 0 /\ due <= Num
CutAnywhere == \A n, m \in Blocks : Frames(Frames(State, Patterns[1], n), Patterns[1], m) = Frames(State, Patterns[1], n + m)

View == <<clock, level, peak, due, sent, got, Len(hist)>>
Emit == hist'[Len(hist')].op[1] = "take" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
PatternsA == << <<4096>>, <<0>>, <<0, -2048, 0, 1024>> >>
PatternsB == << <<4096>>, <<0>>, <<0, -4096, 0, 0, 0, 0, 0>>, <<3000, 1000, -2000>>, <<64, -128>>, <<-4096, 0, 2048, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>
=============================================================================
