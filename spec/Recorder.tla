------------------------------- MODULE Recorder -------------------------------
(* The recorder (properties C07, C08): which frames are in the recording,    *)
(* and what the control side has been told, after any history of starts,     *)
(* stops (now, or at a time), process calls, collections and takes.          *)
(*                                                                          *)
(* Everything recorded is one stream of frames: what is taken, put end to    *)
(* end, is a prefix of it. A prefix that ends within a recording that goes   *)
(* on may be of any length, but once a stop has been reported the frames up  *)
(* to it must all be there. Times are in units of a number of frames that    *)
(* each replay chooses.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ahead, MaxCmds, MaxPending, MaxTime, Blocks, Burst, Least, SimDepth
VARIABLES clock, pending, rec, total, whole, told, toldTotal, toldWhole, cmds, hist
vars == <<clock, pending, rec, total, whole, told, toldTotal, toldWhole, cmds, hist>>

Init == /\ clock = 0 /\ pending = <<>> /\ rec = FALSE /\ total = 0 /\ whole = 0
        /\ told = FALSE /\ toldTotal = 0 /\ toldWhole = 0 /\ cmds = 0 /\ hist = <<>>

Insert(p, e) == LET i == Cardinality({j \in 1..Len(p) : p[j].t <= e.t})
                IN SubSeq(p, 1, i) \o <<e>> \o SubSeq(p, i + 1, Len(p))

\* One unit: s = [f, p, rec, total, whole, segs]
RECURSIVE Due(_)
Due(s) == IF s.p = <<>> \/ Head(s.p).t > s.f THEN s
          ELSE LET e == Head(s.p) IN
               Due([s EXCEPT !.p = Tail(@),
                             !.rec = (e.op = "start"),
                             !.whole = IF e.op = "stop" /\ s.rec THEN s.total ELSE @])
Record(s) == IF ~s.rec THEN s.segs
             ELSE IF s.segs # <<>> /\ s.segs[Len(s.segs)][2] = s.f
                  THEN [s.segs EXCEPT ![Len(s.segs)] = <<@[1], s.f + 1>>]
                  ELSE Append(s.segs, <<s.f, s.f + 1>>)
Unit(s0) == LET s == Due(s0) IN
            [s EXCEPT !.f = @ + 1, !.total = IF s.rec THEN @ + 1 ELSE @, !.segs = Record(s)]
RECURSIVE Units(_, _)
Units(s, n) == IF n = 0 THEN s ELSE Units(Unit(s), n - 1)
State == [f |-> clock, p |-> pending, rec |-> rec, total |-> total, whole |-> whole, segs |-> <<>>]

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"
Log(op, x) == hist' = Append(hist, [op |-> op, x |-> x])

\* For crowds: nothing but requests for a while (in simulation)
Ready == IF Least = 0 THEN TRUE ELSE ~Calm \/ cmds >= MaxCmds \/ Len(pending) >= MaxPending \/ RandomElement(1..Least) = 1

Request(op, e) ==
    /\ cmds < MaxCmds /\ cmds' = cmds + 1 /\ Calm /\ Len(pending) < MaxPending
    /\ pending' = Insert(pending, e) /\ Log(op, <<>>)
    /\ UNCHANGED <<clock, rec, total, whole, told, toldTotal, toldWhole>>
Process(n) ==
    LET s == Units(State, n) IN
    /\ clock + n <= MaxTime /\ Ready
    /\ clock' = s.f /\ pending' = s.p /\ rec' = s.rec /\ total' = s.total /\ whole' = s.whole
    /\ Log(<<"process", n>>, s.segs)
    /\ UNCHANGED <<told, toldTotal, toldWhole, cmds>>
Collect ==
    /\ Calm /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op[1] # "collect")
    /\ told' = rec /\ toldTotal' = total /\ toldWhole' = whole
    /\ Log(<<"collect">>, <<rec>>)
    /\ UNCHANGED <<clock, pending, rec, total, whole, cmds>>
Take ==
    /\ Calm /\ Log(<<"take">>, <<told, toldWhole, toldTotal>>)
    /\ UNCHANGED <<clock, pending, rec, total, whole, told, toldTotal, toldWhole, cmds>>

Next ==
    \/ Request(<<"start">>, [op |-> "start", t |-> 0])
    \/ Request(<<"stop">>, [op |-> "stop", t |-> 0])
    \/ \E d \in Ahead : clock + d >= 0 /\ Request(<<"stop_at", clock + d>>, [op |-> "stop", t |-> clock + d])
    \/ \E n \in Blocks : Process(n)
    \/ Collect
    \/ Take
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Bounded == whole <= total /\ toldWhole <= toldTotal /\ toldTotal <= total /\ toldWhole <= whole /\ total <= clock
Complete == ~rec => whole = total
ToldComplete == ~told => toldWhole = toldTotal
InOrder == \A i, j \in 1..Len(pending) : i < j => pending[i].t <= pending[j].t
CutAnywhere == \A n, m \in Blocks : Units(Units(State, n), m) = Units(State, n + m)
\* Recording goes on for as long as it is not stopped
Steady == [][(rec /\ pending = <<>>) => rec' /\ total' - total = clock' - clock]_vars
Idle == [][(~rec /\ \A i \in 1..Len(pending) : pending[i].op = "stop") => total' = total]_vars

View == <<clock, pending, rec, total, whole, told, toldTotal, toldWhole, cmds,
          IF hist = <<>> THEN "" ELSE hist[Len(hist)].op[1]>>
Emit == hist'[Len(hist')].op[1] = "take" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
AheadA == {0, 1, 3}
AheadC == {-3, 0, 1, 2, 3, 4, 5, 9, 13, 20, 31}
AheadB == {-3, 0, 1, 2, 3, 5, 9}
=============================================================================
