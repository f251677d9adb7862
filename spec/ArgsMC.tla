-------------------------------- MODULE ArgsMC --------------------------------
(* All histories of a few lists, probes and scopes: whatever a program does    *)
(* that Args takes for sensible, each list has one owner and one release.      *)
EXTENDS Args, FiniteSets
CONSTANTS MaxLists, MaxProbes
VARIABLES m, n, log
vars == <<m, n, log>>
Init == m = Start /\ n = 0 /\ log = <<>>
V1 == <<1, 2, 3, 4>>
Mk == {[e |-> "mk", l |-> Len(m.list), ctx |-> c, fmt |-> <<105>>, v |-> <<V1>>, n |-> 1, parts |-> ps, ok |-> 1] : c \in {"n", "t", "u"} \cup (IF m.cur = "w" THEN {"p"} ELSE {}), ps \in {<<0, 1>>}}
Ls == {i - 1 : i \in DOMAIN m.list}
Gets == {[e |-> "get", l |-> l, i |-> i, sc |-> sc, r |-> IF i = 0 THEN Read(105, V1) ELSE Zero, z |-> 1] :
          l \in Ls, i \in {0, 1}, sc \in {"n", "t", "u"}}
Frees == {[e |-> "free", l |-> l, part |-> p] : l \in Ls, p \in {0, 1}}
Others == {[e |-> "reg", sc |-> s, k |-> n] : s \in {"t", "u"}}
          \cup {[e |-> "end", sc |-> s] : s \in Scopes \ {"w"}}
          \cup {[e |-> "ended"], [e |-> "leave"], [e |-> "joined", ok |-> 1], [e |-> "in_thread", same |-> 1], [e |-> "afreed"]}
          \cup {[e |-> "afree", l |-> l] : l \in Ls}
          \cup {[e |-> "probe", k |-> k] : k \in 0..(n - 1)}
Exit == [e |-> "exit", how |-> "code", v |-> 0, bad |-> 0, smash |-> 0, live |-> Blocks(m.list)]
Events == (IF Len(m.list) < MaxLists THEN Mk ELSE {}) \cup Gets \cup Frees \cup Others \cup {Exit}
Step(e) == /\ e.e = "reg" => n < MaxProbes
           /\ Wrong(m, e) = ""
           /\ m' = Next(m, e)
           /\ n' = IF e.e = "reg" THEN n + 1 ELSE n
           /\ log' = IF e.e \in {"free", "probe"} THEN Append(log, IF e.e = "free" THEN <<"free", e.l, e.part>> ELSE <<"probe", e.k>>) ELSE log
Spec == Init /\ [][\E e \in Events : m.mode # "over" /\ Step(e)]_vars

Times(x) == Cardinality({i \in DOMAIN log : log[i] = x})
\* each block of a list is released at most once, each probe run at most once
Once == \A i, j \in DOMAIN log : log[i] = log[j] => i = j
\* a list is in one scope's stack exactly if it has an owner and is not released
Occ(it) == Cardinality({<<s, i>> \in Scopes \X (1..(MaxLists + MaxProbes)) : i <= Len(m.stk[s]) /\ m.stk[s][i] = it})
Owned == \A l \in Ls : LET x == m.list[l + 1] IN
           Occ(<<"list", l>>) = IF x.bound /\ x.rel # {0, 1} THEN 1 ELSE 0
\* when all is over, a list with an owner that ended is gone
Ended == m.mode = "over" => \A l \in Ls : m.list[l + 1].bound => m.list[l + 1].rel = {0, 1} \/ \E s \in {"u", "v", "p"} : Occ(<<"list", l>>) = 1
\* what is released while a scope ends is its own
Half == \A l \in Ls : m.list[l + 1].rel \notin {{}, {0, 1}} => m.mode \in {"drain", "afree"}
=============================================================================
