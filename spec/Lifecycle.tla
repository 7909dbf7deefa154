------------------------------ MODULE Lifecycle ------------------------------
(* The lives of nodes (property C13): handles, the context and the audio     *)
(* process are dropped in any order, between graph edits and blocks. A       *)
(* processor is queued for the audio process, then in its graph, then handed *)
(* over as garbage, then gone.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nodes, Own, Weight, MaxOps, MaxEdges, Live, Rare, SimDepth
VARIABLES handle, place, queue, edges, out, context, process, destroyed, n, hist
vars == <<handle, place, queue, edges, out, context, process, destroyed, n, hist>>

Init == /\ handle = [x \in Nodes |-> "none"] /\ place = [x \in Nodes |-> "none"]
        /\ queue = <<>> /\ edges = [e \in Nodes \X Nodes |-> 0] /\ out = 0
        /\ context = TRUE /\ process = TRUE
        /\ destroyed = [x \in Nodes |-> 0]
        /\ n = 0 /\ hist = <<>>

\* What a node puts out
RECURSIVE Value(_, _), Sum(_, _, _)
Sum(g, x, m) == IF m = 0 THEN 0 ELSE g[<<m, x>>] * Value(g, m) + Sum(g, x, m - 1)
Value(g, x) == Own[x] + Weight[x] * Sum(g, x, x - 1)

Log(op) == /\ n' = n + 1
           /\ hist' = IF Live THEN hist
                      ELSE Append(hist, [op |-> op, place |-> place',
                                         heard |-> IF out' # 0 /\ place'[out'] = "graph" THEN Value(edges', out') ELSE 0])
Keep(v) == UNCHANGED v
Gone(S) == /\ place' = [x \in Nodes |-> IF x \in S THEN "gone" ELSE place[x]]
           /\ destroyed' = [x \in Nodes |-> IF x \in S THEN destroyed[x] + 1 ELSE destroyed[x]]
Send(c) == queue' = IF process THEN Append(queue, c) ELSE queue

Create(x) ==
    /\ context /\ handle[x] = "none" /\ handle' = [handle EXCEPT ![x] = "held"]
    /\ Send(<<"add", x>>)
    /\ IF process THEN place' = [place EXCEPT ![x] = "queued"] /\ Keep(destroyed) ELSE Gone({x})
    /\ Keep(<<edges, out, context, process>>) /\ Log(<<"create", x>>)
DropHandle(x) ==
    /\ handle[x] = "held" /\ handle' = [handle EXCEPT ![x] = "dropped"]
    /\ Send(<<"remove", x>>) /\ Keep(<<place, edges, out, context, process, destroyed>>) /\ Log(<<"drop", x>>)
Connect(x, y) ==
    /\ x < y /\ handle[x] = "held" /\ handle[y] = "held"
    /\ Send(<<"connect", x, y>>) /\ Keep(<<handle, place, edges, out, context, process, destroyed>>) /\ Log(<<"connect", x, y>>)
Disconnect(x, y) ==
    /\ x < y /\ handle[x] = "held" /\ handle[y] = "held"
    /\ Send(<<"disconnect", x, y>>) /\ Keep(<<handle, place, edges, out, context, process, destroyed>>) /\ Log(<<"disconnect", x, y>>)
ToOutput(x) ==
    /\ handle[x] = "held"
    /\ Send(<<"output", x>>) /\ Keep(<<handle, place, edges, out, context, process, destroyed>>) /\ Log(<<"output", x>>)
DropContext ==
    /\ context /\ context' = FALSE
    /\ Keep(<<handle, place, queue, edges, out, process, destroyed>>) /\ Log(<<"drop context">>)
\* What the audio process holds goes with it
DropProcess ==
    /\ process /\ process' = FALSE /\ queue' = <<>> /\ out' = 0
    /\ Gone({x \in Nodes : place[x] \in {"queued", "graph"}})
    /\ Keep(<<handle, edges, context>>) /\ Log(<<"drop process">>)

Apply(s, c) ==
    CASE c[1] = "add" -> [s EXCEPT !.place[c[2]] = "graph"]
      [] c[1] = "remove" -> [s EXCEPT !.place[c[2]] = "garbage",
                                      !.edges = [e \in Nodes \X Nodes |-> IF e[1] = c[2] \/ e[2] = c[2] THEN 0 ELSE s.edges[e]]]
      [] c[1] = "connect" -> [s EXCEPT !.edges[<<c[2], c[3]>>] = @ + 1]
      [] c[1] = "disconnect" -> [s EXCEPT !.edges[<<c[2], c[3]>>] = 0]
      [] c[1] = "output" -> [s EXCEPT !.out = c[2]]
RECURSIVE Drain(_, _)
Drain(s, q) == IF q = <<>> THEN s ELSE Drain(Apply(s, Head(q)), Tail(q))
Block ==
    /\ process
    /\ LET s == Drain([place |-> place, edges |-> edges, out |-> out], queue)
       IN  place' = s.place /\ edges' = s.edges /\ out' = s.out
    /\ queue' = <<>> /\ Keep(<<handle, context, process, destroyed>>) /\ Log(<<"block">>)
\* Somewhere else than in the audio process
Collect(x) ==
    /\ Live /\ place[x] = "garbage" /\ Gone({x})
    /\ Keep(<<handle, queue, edges, out, context, process, n, hist>>)

More == n < MaxOps
\* In simulation, keep going for a while
Lucky == IF Rare = 1 THEN TRUE ELSE RandomElement(1..Rare) = 1
Total == LET c == SelectSeq(queue, LAMBDA m : m[1] = "connect") IN Len(c) + Cardinality({e \in Nodes \X Nodes : edges[e] > 0})
Step == \/ \E x \in Nodes : More /\ (Create(x) \/ DropHandle(x) \/ ToOutput(x))
        \/ \E x \in Nodes, y \in Nodes : More /\ Total < MaxEdges /\ Connect(x, y)
        \/ \E x \in Nodes, y \in Nodes : More /\ Disconnect(x, y)
        \/ (More /\ Lucky /\ DropContext)
        \/ (More /\ Lucky /\ DropProcess)
        \/ (More /\ Block)
Next == Step \/ \E x \in Nodes : Collect(x)
Spec == Init /\ [][Next]_vars
\* The collector runs
LiveSpec == Spec /\ WF_vars(\E x \in Nodes : Collect(x))
----------------------------------------------------------------------------
\* Destroyed at most once, and never while the graph or the queue holds it
Once == \A x \in Nodes : destroyed[x] = IF place[x] = "gone" THEN 1 ELSE 0
\* A processor is somewhere as long as its handle can reach it
Held == \A x \in Nodes : process /\ handle[x] = "held" => place[x] \in {"queued", "graph"}
\* No edge touches what is not in the graph
NoDangling == \A e \in Nodes \X Nodes : process /\ edges[e] > 0 => place[e[1]] = "graph" /\ place[e[2]] = "graph"
\* The audio process destroys nothing
NotInBlock == [][n' = n + 1 /\ process' /\ process => \A x \in Nodes : destroyed'[x] = destroyed[x]]_vars
\* The others play on
Undisturbed == [][\A x \in Nodes : place[x] = "graph" /\ place'[x] # "graph" => handle[x] = "dropped" \/ ~process']_vars
\* No processor is leaked
AllGone == \A x \in Nodes : (place[x] = "garbage") ~> (place[x] = "gone")
View == <<handle, place, queue, edges, out, context, process, n>>
Emit == PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
OwnA == <<1, 2, 4>>
WeightA == <<1, 1, 1>>
OwnB == <<1, 2, 0, 8, 0, 0>>
WeightB == <<1, 1, 1, 1, 0, 1>>
=============================================================================
