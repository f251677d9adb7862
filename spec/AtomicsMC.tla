------------------------------ MODULE AtomicsMC ------------------------------
(* Small histories with every result a library could return: the specification *)
(* takes exactly those that have a linearization, which Lin says from the      *)
(* history h alone.                                                            *)
EXTENDS Atomics
CONSTANTS N, Max, Ops
VARIABLES m, h, wrong
vars == <<m, h, wrong>>
T == 1..N
V == {<<0>>, <<1>>, <<2>>}
Init == /\ m = [Init0 EXCEPT !.cf = {[v |-> ("x" :> <<0>>), r |-> [t \in {} |-> No]]}, !.rel = ("x" :> Clock),
                             !.th = [t \in 0..N |-> Thread(Clock, t)]]
        /\ h = <<>> /\ wrong = FALSE
Open(t) == {i \in DOMAIN h : h[i].t = t /\ h[i].end = 0}
\* time is counted in events
Now == Len(h) + Cardinality({i \in DOMAIN h : h[i].end # 0}) + 1
Args(op) == IF op \in {"store", "xchg", "add", "cas", "cswap"} THEN {<<1>>, <<2>>} ELSE {<<>>}
CallOp(t) == /\ Open(t) = {} /\ Len(h) < Max
             /\ \E op \in Ops : \E a \in Args(op) :
                  LET e == [e |-> "call", t |-> t, o |-> "x", op |-> op, a |-> a, b |-> <<2>>, sc |-> FALSE] IN
                  /\ m' = Do(m, e)
                  /\ h' = Append(h, [t |-> t, op |-> op, a |-> a, b |-> <<2>>, beg |-> Now, end |-> 0, r |-> No])
                  /\ wrong' = FALSE
\* ---- from the history alone: an order of the operations, all those that returned and some of those that did not
Orders(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
RECURSIVE Runs(_, _, _, _)
Runs(g, p, i, v) == i > Len(p) \/ \E x \in Outcomes(v, g[p[i]]) : (g[p[i]].end = 0 \/ x[2] = g[p[i]].r) /\ Runs(g, p, i + 1, x[1])
Lin(g) == \E S \in SUBSET DOMAIN g :
            /\ {i \in DOMAIN g : g[i].end # 0} \subseteq S
            /\ \E p \in Orders(S) :
                 /\ \A i, j \in DOMAIN p : i < j => ~(g[p[j]].end # 0 /\ g[p[j]].end < g[p[i]].beg)
                 /\ Runs(g, [i \in 1..Cardinality(S) |-> p[i]], 1, <<0>>)
Results == {<<>>} \cup V \cup {<<b>> \o v : b \in {0, 1}, v \in V}
RetOp(t) == \E i \in Open(t) : \E r \in Results :
              LET x == Do(m, [e |-> "ret", t |-> t, r |-> r])
                  g == [h EXCEPT ![i].end = Now, ![i].r = r] IN
              IF x.mode = "bad" THEN /\ wrong' = Lin(g) /\ UNCHANGED <<m, h>>
              ELSE /\ m' = x /\ h' = g /\ wrong' = ~Lin(g)
Next == \E t \in T : CallOp(t) \/ RetOp(t)
Spec == Init /\ [][Next]_vars
Exact == ~wrong
=============================================================================
