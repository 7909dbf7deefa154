-------------------------------- MODULE Heap --------------------------------
(* When the audio process may use the heap (property C22): a process call    *)
(* to which nothing new has come neither takes memory nor gives any back,    *)
(* except to hand over a recording. Nodes come, go, are connected and used   *)
(* (changes and notes at once or scheduled for later, which take effect in   *)
(* calls that are quiet).                                                    *)
(*                                                                          *)
(* Nodes 1..N are of any kind but the recorder, and Recorders of that one.   *)
(* A recorder fills one buffer of Size frames after another, out of a pool   *)
(* of Pool, and gets those back that the control side has collected.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Nodes, Recorders, Size, Pool, Plays, MaxOps, Lively, SimDepth
VARIABLES there,    \* the nodes there are
          edges,    \* pairs of connected nodes, from the lower to the higher
          news,     \* is something under way to the audio process
          rec,      \* for every recorder
          hist
vars == <<there, edges, news, rec, hist>>

\* Frames in a call, and how many such calls
PlaysA == {<<100, 2>>, <<4000, 2>>}
PlaysB == {<<1, 1>>, <<64, 1>>, <<512, 3>>, <<1, 700>>, <<16, 250>>, <<1000, 15>>, <<5000, 3>>, <<4096, 4>>}

All == Nodes \cup Recorders
\* on: recording; at: frames in its buffer; away: buffers at the control side, or under
\* way there; back: those collected; todo: what it was told to do
Idle == [on |-> FALSE, at |-> 0, away |-> 0, back |-> 0, todo |-> <<>>]
Init == /\ there = {} /\ edges = {} /\ news = TRUE /\ rec = [r \in Recorders |-> Idle] /\ hist = <<>>

Log(op, x) == hist' = Append(hist, [op |-> op, x |-> x])
Open == Len(hist) < MaxOps

Add(n) == /\ Open /\ n \notin there /\ there' = there \cup {n} /\ news' = TRUE
          /\ rec' = IF n \in Recorders THEN [rec EXCEPT ![n] = Idle] ELSE rec
          /\ Log(<<"add", n>>, <<>>) /\ UNCHANGED edges
Drop(n) == /\ Open /\ n \in there /\ there' = there \ {n} /\ news' = TRUE
           /\ edges' = {e \in edges : e[1] # n /\ e[2] # n}
           /\ Log(<<"drop", n>>, <<>>) /\ UNCHANGED rec
Connect(a, b) == /\ Open /\ a \in there /\ b \in there /\ a \notin Recorders /\ <<a, b>> \notin edges
                 /\ edges' = edges \cup {<<a, b>>} /\ news' = TRUE
                 /\ Log(<<"connect", a, b>>, <<>>) /\ UNCHANGED <<there, rec>>
Cut(a, b) == /\ Open /\ <<a, b>> \in edges /\ edges' = edges \ {<<a, b>>} /\ news' = TRUE
             /\ Log(<<"cut", a, b>>, <<>>) /\ UNCHANGED <<there, rec>>
Output(n) == /\ Open /\ n \in there \ Recorders /\ news' = TRUE
             /\ Log(<<"output", n>>, <<>>) /\ UNCHANGED <<there, edges, rec>>
Input(n) == /\ Open /\ n \in there /\ news' = TRUE
            /\ Log(<<"input", n>>, <<>>) /\ UNCHANGED <<there, edges, rec>>
\* So many short recordings, each of them collected before the next: the buffer of the last one is still
\* on its way back
Sessions(r, times) ==
    /\ Open /\ \A x \in there \cap Recorders : ~rec[x].on /\ rec[x].todo = <<>>
    /\ r \in there
    /\ rec' = [rec EXCEPT ![r].at = 0, ![r].away = 1, ![r].back = 1]
    /\ news' = TRUE
    /\ Log(<<"sessions", r, times>>, <<>>) /\ UNCHANGED <<there, edges>>
\* Whatever the node is made for: a note, a change of a parameter, now or later
Use(n) == /\ Open /\ n \in there \ Recorders /\ news' = TRUE
          /\ Log(<<"use", n>>, <<>>) /\ UNCHANGED <<there, edges, rec>>
Tell(r, what) == /\ Open /\ r \in there /\ rec' = [rec EXCEPT ![r].todo = Append(@, what)] /\ news' = TRUE
                 /\ Log(<<what, r>>, <<>>) /\ UNCHANGED <<there, edges>>
\* What was collected is sent back, which is news
Collect == /\ Open
           /\ rec' = [r \in Recorders |-> IF r \in there THEN [rec[r] EXCEPT !.back = rec[r].away] ELSE rec[r]]
           /\ news' = (news \/ \E r \in there \cap Recorders : rec[r].away > 0)
           /\ Log(<<"collect">>, <<>>) /\ UNCHANGED <<there, edges>>

\* A recorder hears what it was told, in order. One that stops hands over its buffer, however little is in it
RECURSIVE Heard(_, _)
Heard(s, todo) ==
    IF todo = <<>> THEN [s EXCEPT !.todo = <<>>, !.away = @ - s.back, !.back = 0]
    ELSE Heard(CASE todo[1] = "record" -> [s EXCEPT !.on = TRUE]
                 [] todo[1] = "stop" /\ s.on -> [s EXCEPT !.on = FALSE, !.at = 0, !.away = @ + 1]
                 [] OTHER -> s, Tail(todo))
Played(s, f) == IF s.on THEN [s EXCEPT !.away = @ + ((s.at + f) \div Size), !.at = (s.at + f) % Size] ELSE s

\* The calls in which some recorder hands a buffer over
Handing(s, f, calls) == IF s.on THEN {k \in 1..calls : (s.at + k * f) \div Size > (s.at + (k - 1) * f) \div Size} ELSE {}
Play(f, calls) ==
    LET heard == [r \in Recorders |-> IF r \in there THEN Heard(rec[r], rec[r].todo) ELSE rec[r]]
        mine == there \cap Recorders
        handing == UNION {Handing(heard[r], f, calls) : r \in mine} IN
    /\ Open
    /\ rec' = [r \in Recorders |-> IF r \in there THEN Played(heard[r], f * calls) ELSE rec[r]]
    /\ news' = FALSE
    /\ Log(<<"play", f, calls>>,
           <<news, SetToSortSeq(handing, <), \* of the calls, and whether the pools last that long
             \A r \in mine : rec'[r].away < Pool>>)
    /\ UNCHANGED <<there, edges>>

Some(n) == IF Lively = 0 THEN TRUE ELSE RandomElement(1..n) = 1
Next == \/ \E n \in All : Add(n)
        \/ \E n \in All : Some(9) /\ Drop(n)
        \/ \E a, b \in All : a < b /\ Some(3) /\ Connect(a, b)
        \/ \E a, b \in All : a < b /\ Some(6) /\ Cut(a, b)
        \/ \E n \in All : Some(4) /\ Output(n)
        \/ \E n \in All : Some(4) /\ Input(n)
        \/ \E n \in All : Use(n)
        \/ \E r \in Recorders, t \in {2, 20, 40} : Some(8) /\ Sessions(r, t)
        \/ \E r \in Recorders, what \in {"record", "stop"} : Some(3) /\ Tell(r, what)
        \/ Collect
        \/ \E p \in Plays : Play(p[1], p[2])
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
TypeOK == /\ there \subseteq All /\ edges \subseteq {e \in All \X All : e[1] < e[2]}
          /\ \A r \in Recorders : rec[r].at \in 0..(Size - 1) /\ rec[r].back <= rec[r].away
\* Only what is there is connected
Attached == \A e \in edges : e[1] \in there /\ e[2] \in there
\* One who is silent for long is left alone: after a play nothing is under way
Settles == [][\A p \in Plays : Play(p[1], p[2]) => ~news' /\ \A r \in there \cap Recorders : rec'[r].todo = <<>>]_vars
\* Without news the recorders go on as they were
Constant == [][~news /\ ~news' => \A r \in Recorders : rec'[r].on = rec[r].on /\ rec'[r].away >= rec[r].away]_vars
----------------------------------------------------------------------------
View == <<there, edges, news, rec, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)].op>>
Emit == hist'[Len(hist')].op[1] = "play" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
=============================================================================
