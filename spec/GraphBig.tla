------------------------------ MODULE GraphBig ------------------------------
(* Graph.tla with many nodes, channels and connections, in simulation.      *)
(* The signals are computed along the graph instead of path by path         *)
(* (FastOut, which replaces SystemOut), one successor of each kind is       *)
(* picked at random, and the weights are small (SmallW), so that sums over  *)
(* very many paths stay exact.                                              *)
EXTENDS Graph

SmallW(n) == IF n % 3 = 0 THEN -1 ELSE 1

Total(S(_), n) ==
    LET RECURSIVE Add_(_)
        Add_(i) == IF i = 0 THEN Zero ELSE Plus(S(i), Add_(i - 1))
    IN Add_(n)

\* vals: signals of the nodes that are done, as a function; left: the others
RECURSIVE Along(_, _, _, _)
Along(cs, in, vals, left) ==
    LET ready == {n \in left : \A i \in 1..Len(cs) : cs[i][2] = n => cs[i][1] \notin left}
        Input(n) == [c \in 0..(InCh[n] - 1) |->
            LET to == SelectSeq(cs, LAMBDA k : k[2] = n /\ c >= k[4] /\ c < k[4] + k[5])
                one(i) == vals[to[i][1]][c - to[i][4] + to[i][3]]
            IN Plus(Total(one, Len(to)), IF in = n THEN SysChannel(c) ELSE Zero)]
        Output(n) == LET x == Input(n)
                     IN [c \in 0..(OutCh[n] - 1) |->
                            IF InCh[n] = 0 THEN Const(K(n, c))
                            ELSE Plus(Const(K(n, c)), Scale(W(n), x[c % InCh[n]]))]
    IN IF ready = {} THEN vals
       ELSE Along(cs, in, vals @@ [n \in ready |-> Output(n)], left \ ready)

FastOut(cs, in, o) ==
    IF o = 0 THEN [c \in 1..SysOut |-> Zero]
    ELSE LET up == {n \in Nodes : n = o \/ Path(cs, n, o)}
             vals == Along(SelectSeq(cs, LAMBDA k : k[1] \in up /\ k[2] \in up), in, <<>>, up)
         IN [c \in 1..SysOut |-> IF c > MaxCh \/ c > OutCh[o] THEN Zero ELSE vals[o][c - 1]]

\* The two ways of computing the signals agree (checked exhaustively on small
\* graphs, where SystemOut is not replaced)
Agree == FastOut(conns, insys, outsys) = SystemOut(conns, insys, outsys)

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Lucky(k) == RandomElement(1..k) = 1
More == Len(hist) < SimDepth
\* Mostly from a lower to a higher number; sometimes the other way round, if
\* that makes no cycle
Pairs == {p \in alive \X alive : p[1] # p[2] /\ OutCh[p[1]] > 0 /\ InCh[p[2]] > 0 /\ ((p[1] < p[2]) \/ (p[1] + p[2]) % 5 = 0)}
Near == {p \in Pairs : p[2] < p[1] + 5 /\ p[1] < p[2] + 5}
Offsets(k) == 0..(k - 1)
BigNext ==
    \/ \E w \in 1..3 : More /\ \E p \in Pick(IF w = 3 THEN Pairs ELSE Near) : Connect(p[1], p[2])
    \/ \E w \in 1..2 : More /\ \E p \in Pick(IF w = 2 THEN Pairs ELSE Near) :
            \E so \in Pick(Offsets(OutCh[p[1]])), di \in Pick(Offsets(InCh[p[2]])) :
                \E cc \in Pick(1..Min(OutCh[p[1]] - so, InCh[p[2]] - di)) : ConnectChannels(p[1], p[2], so, di, cc)
    \/ (More /\ (Len(conns) >= MaxConns - 1 \/ Lucky(3)) /\ \E i \in Pick(1..Len(conns)) : Disconnect(conns[i][1], conns[i][2]))
    \/ (More /\ Lucky(20) /\ \E p \in Pick(alive \X alive) : Disconnect(p[1], p[2]))
    \/ (More /\ (insys = 0 \/ Lucky(8)) /\ \E n \in Pick(alive) : ConnectInput(n))
    \/ (More /\ (outsys = 0 \/ Lucky(6)) /\ \E n \in Pick(alive) : ConnectOutput(n))
    \/ (More /\ Lucky(6) /\ \E n \in Pick(alive) : Drop(n))
    \/ (More /\ (Cardinality(alive) * 3 < Cardinality(Nodes) * 2 \/ Lucky(2)) /\ \E n \in Pick(Nodes \ alive) : Add(n))
BigSpec == Init /\ [][BigNext]_vars

Nodes20 == 1..20
InBig20 == [n \in 1..20 |-> IF n = 1 THEN 0 ELSE (n * 5) % 7]
OutBig20 == [n \in 1..20 |-> IF n = 19 THEN 0 ELSE 1 + ((n * 3) % 6)]
Nodes9 == 1..9
InBig9 == [n \in 1..9 |-> 2]
OutBig9 == [n \in 1..9 |-> 2]
=============================================================================
