----------------------------- MODULE Automation -----------------------------
(* The timeline of one automated parameter (properties C04, C05).           *)
(*                                                                          *)
(* Times are in half frames ("ticks"), so that changes can fall on and      *)
(* between frames. Changes are kept in order of their end times (equal ones *)
(* in the order issued); at most one is taken per frame, when it is due (an *)
(* immediate change at its time, a ramp at its start), and replaces what is *)
(* in progress. Each frame is given a directive:                            *)
(*   <<"set", v>>      the value is exactly v                               *)
(*   <<"hold">>        the value is that of the previous frame              *)
(*   <<kind, f0, v, e>> a ramp of that kind that was begun on frame f0 from *)
(*                     the value of the frame before, to reach v at tick e  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values,    \* values that may be requested
          Kinds,     \* ramps in use: subset of {"lin", "exp"}
          Ticks,     \* times that are scheduled, in half frames
          MaxFrames, \* frames processed in all
          Blocks,    \* numbers of frames processed at once
          MaxPending,\* bound on waiting changes
          MaxCmds,   \* bound on requests
          Least,     \* so many requests in a row, about (0: any)
          Burst,     \* bound on requests in a row (to balance simulation)
          SimDepth

VARIABLES frame,   \* next frame to be processed
          pending, \* changes not yet taken, in the order they will be
          cur,     \* what is in progress
          cmds,    \* number of requests made
          done,    \* sequence of the changes taken: <<id, frame>>
          hist

vars == <<frame, pending, cur, cmds, done, hist>>

\* A change: id, kind ("set"/"lin"/"exp"), value, start, end
Due(c, f) == IF c.kind = "set" THEN c.e <= 2 * f ELSE c.s <= 2 * f

\* What is in progress: ["hold"] or a change and the frame it was taken on
Directive(c, f) ==
    IF c.kind = "hold" THEN <<"hold">>
    ELSE IF c.e <= 2 * f THEN <<"set", c.v>>
    ELSE <<c.kind, c.f0, c.v, c.e>>

\* One frame: take the first change if it is due
StepFrame(st) ==
    LET take == st.p # <<>> /\ Due(Head(st.p), st.f)
        now == IF take THEN [kind |-> Head(st.p).kind, v |-> Head(st.p).v, e |-> Head(st.p).e, f0 |-> st.f] ELSE st.c
    IN [f |-> st.f + 1, p |-> IF take THEN Tail(st.p) ELSE st.p, c |-> now,
        out |-> Append(st.out, Directive(now, st.f)),
        done |-> IF take THEN Append(st.done, <<Head(st.p).id, st.f>>) ELSE st.done]

RECURSIVE Frames(_, _)
Frames(st, n) == IF n = 0 THEN st ELSE Frames(StepFrame(st), n - 1)

\* The same, several frames at a time: as long as nothing changes
Smaller(a, b) == IF a < b THEN a ELSE b
FirstFrame(t) == IF t < 0 THEN 0 ELSE (t + 1) \div 2
StepRun(st, n) ==
    IF st.p # <<>> /\ Due(Head(st.p), st.f)
    THEN LET one == StepFrame([st EXCEPT !.out = <<>>]) IN [one EXCEPT !.out = Append(st.out, <<one.out[1], 1>>)]
    ELSE LET a == IF st.p = <<>> THEN n ELSE Smaller(n, FirstFrame(IF Head(st.p).kind = "set" THEN Head(st.p).e ELSE Head(st.p).s) - st.f)
             b == IF st.c.kind \in {"lin", "exp"} /\ st.c.e > 2 * st.f THEN Smaller(a, FirstFrame(st.c.e) - st.f) ELSE a
         IN [st EXCEPT !.f = @ + b, !.out = Append(@, <<Directive(st.c, st.f), b>>)]
RECURSIVE Runs(_, _)
Runs(st, n) == IF n = 0 THEN st ELSE LET next == StepRun(st, n) IN Runs(next, n - (next.f - st.f))
RECURSIVE Expand(_)
Expand(o) == IF o = <<>> THEN <<>> ELSE [i \in 1..Head(o)[2] |-> Head(o)[1]] \o Expand(Tail(o))

InsertChange(p, c) ==
    LET i == Cardinality({j \in 1..Len(p) : p[j].e <= c.e})
    IN SubSeq(p, 1, i) \o <<c>> \o SubSeq(p, i + 1, Len(p))

Init == /\ frame = 0 /\ pending = <<>> /\ cmds = 0 /\ done = <<>> /\ hist = <<>>
        /\ cur = [kind |-> "hold", v |-> 0, e |-> 0, f0 |-> 0]

Log(op, out) == hist' = Append(hist, [op |-> op, out |-> out])

Calm == IF Len(hist) < Burst THEN TRUE
        ELSE \E i \in (Len(hist) - Burst + 1)..Len(hist) : hist[i].op[1] = "process"

\* For crowds: nothing but requests for a while (in simulation)
Ready == IF Least = 0 THEN TRUE ELSE ~Calm \/ cmds >= MaxCmds \/ Len(pending) >= MaxPending \/ RandomElement(1..Least) = 1

Request(op) ==
    /\ cmds < MaxCmds /\ cmds' = cmds + 1
    /\ Calm
    /\ Log(op, <<>>) /\ UNCHANGED <<frame, cur, done>>

\* A change that is to happen at once has a time before all others
Now == -1

Set(v, t) ==
    /\ Len(pending) < MaxPending
    /\ Request(<<"set", v, t>>)
    /\ pending' = InsertChange(pending, [id |-> cmds, kind |-> "set", v |-> v, s |-> t, e |-> t])

Ramp(k, v, s, e) ==
    /\ Len(pending) < MaxPending
    /\ Request(<<k, v, s, e>>)
    /\ pending' = InsertChange(pending, [id |-> cmds, kind |-> k, v |-> v, s |-> s, e |-> e])

Cancel ==
    /\ pending # <<>>
    /\ Request(<<"cancel">>)
    /\ pending' = <<>>

CancelAfter(t) ==
    /\ pending # <<>>
    /\ Request(<<"cancel_after", t>>)
    /\ pending' = SelectSeq(pending, LAMBDA c : c.e <= t)

Process(n) ==
    LET st == Runs([f |-> frame, p |-> pending, c |-> cur, out |-> <<>>, done |-> done], n)
        \* progress that has ended is all alike
        c2 == IF st.c.kind # "hold" /\ st.c.e <= 2 * (st.f - 1) THEN [kind |-> "hold", v |-> 0, e |-> 0, f0 |-> 0] ELSE st.c
    IN /\ frame + n <= MaxFrames /\ Ready
       /\ frame' = st.f /\ pending' = st.p /\ cur' = c2 /\ done' = st.done
       /\ UNCHANGED cmds
       /\ Log(<<"process", n>>, st.out)

Next ==
    \/ \E v \in Values, t \in Ticks \cup {Now} : Set(v, t)
    \/ \E k \in Kinds, v \in Values, s \in Ticks, e \in Ticks : s <= e /\ Ramp(k, v, s, e)
    \/ Cancel
    \/ \E t \in Ticks : CancelAfter(t)
    \/ \E n \in Blocks : Process(n)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Every change is taken at most once, at most one per frame, never early,
\* and those that wait are in order of their ends
TakenOnce == \A i, j \in 1..Len(done) : i # j => done[i][1] # done[j][1] /\ done[i][2] # done[j][2]
Ordered == \A i, j \in 1..Len(pending) : i < j =>
              \/ pending[i].e < pending[j].e
              \/ pending[i].e = pending[j].e /\ pending[i].id < pending[j].id
NotBoth == \A i \in 1..Len(pending), j \in 1..Len(done) : pending[i].id # done[j][1]
\* Progress never outlives its end time
Ends == cur.kind # "hold" => cur.e > 2 * (frame - 1)

\* Taking several frames at a time makes no difference
RunsAgree ==
    \A n \in Blocks : LET st == [f |-> frame, p |-> pending, c |-> cur, out |-> <<>>, done |-> done]
                         a == Runs(st, n)
                         b == Frames(st, n)
                     IN Expand(a.out) = b.out /\ [a EXCEPT !.out = <<>>] = [b EXCEPT !.out = <<>>]

\* Cutting a stretch in two makes no difference
CutAnywhere ==
    \A n \in Blocks, m \in Blocks :
        LET st == [f |-> frame, p |-> pending, c |-> cur, out |-> <<>>, done |-> <<>>]
        IN Frames(Frames(st, n), m) = Frames(st, n + m)

V1 == {-4}
V2 == {-4, 0, 2, 5}
V3 == {-4, 3}

View == <<frame, pending, cur, cmds>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
Ticks4 == 0..4
Ticks5 == 0..5
Ticks16 == 0..16
Ticks24 == 0..24
Ticks60 == 0..60
TicksCrowd == {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15, 20, 30, 31, 44, 60, 61, 90, 130, 200, 201, 300, 400, 700, 900, 1400}
TicksFar == {0, 1, 3, 1000, 1001, 4001, 9000, 20000, 20003, 300000}
=============================================================================
