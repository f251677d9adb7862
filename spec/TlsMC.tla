-------------------------------- MODULE TlsMC --------------------------------
(* Tls, with every use of every variable that a few threads can make of them, *)
(* and what it is for: whatever others do, a thread finds what it left.       *)
EXTENDS Tls, Sequences
CONSTANTS Threads, Vars, Steps
Addrs == 1..(Cardinality(Threads) * Cardinality(Vars))
Vals == {1, 2}
VARIABLES m, n, wrote,     \* wrote[p]: what the thread wrote last into its own room, or Unknown
          ended
vars == <<m, n, wrote, ended>>
Pairs == Vars \X Threads
Init == m = Init0 /\ n = 0 /\ wrote = [p \in Pairs |-> 0] /\ ended = {}
Runs(t) == t \in m.live
Ev(k, t, v, x, c) == [e |-> k, t |-> t, v |-> v, x |-> x, c |-> c]
Go(e) == LET r == Do(m, e) IN r.mode # "bad" /\ m' = r
Mine(v, t, a) == <<v, t>> \in DOMAIN m'.own /\ m'.own[<<v, t>>] = a
\* a variable set to something of the program's: other variables of its threads may share it
Pool(v) == {-v}
Op(t, v) ==
  \/ \E a \in Addrs \cup Pool(v) : Go(Ev("get", t, v, a, 0)) /\ UNCHANGED wrote
  \/ \E b \in {0, 1} : Go(Ev("empty", t, v, b, 0)) /\ UNCHANGED wrote
  \/ Go(Ev("del", t, v, 0, 0)) /\ wrote' = [wrote EXCEPT ![<<v, t>>] = Unknown]
  \/ \E a \in Pool(v) \cup {0} : Go(Ev("update", t, v, a, 0)) /\ wrote' = (IF a = 0 THEN [wrote EXCEPT ![<<v, t>>] = Unknown] ELSE wrote)
  \/ \E a \in Addrs \cup Pool(v), c \in Vals :
       Go(Ev("write", t, v, a, c)) /\ wrote' = (IF Mine(v, t, a) THEN [wrote EXCEPT ![<<v, t>>] = c] ELSE wrote)
  \/ \E a \in Addrs \cup Pool(v), c \in Vals \cup {0} :
       Go(Ev("read", t, v, a, c)) /\ wrote' = (IF Mine(v, t, a) THEN [wrote EXCEPT ![<<v, t>>] = c] ELSE wrote)
       /\ (Mine(v, t, a) => Assert(wrote[<<v, t>>] \in {c, Unknown}, <<"reads what it did not write", t, v, a, c>>))
Next ==
  /\ n < Steps /\ n' = n + 1
  /\ \/ UNCHANGED ended /\ \E t \in Threads, v \in Vars : Runs(t) /\ Op(t, v)
     \/ \E t \in Threads : t \notin m.live /\ t \notin ended /\ Go([e |-> "fork", t |-> 0, k |-> t]) /\ UNCHANGED <<wrote, ended>>
     \/ \E t \in Threads \ {0} : Runs(t) /\ Go([e |-> "tend", t |-> t]) /\ UNCHANGED wrote /\ ended' = ended \cup {t}
Spec == Init /\ [][Next]_vars
Apart == \A p, q \in DOMAIN m.own : p # q => m.own[p] # m.own[q]
Gone == \A p \in DOMAIN m.own \cup DOMAIN m.val : p[2] \in m.live
\* nobody's variable is another's room
Kept == \A p \in DOMAIN m.val : m.val[p] > 0 => p \in DOMAIN m.own /\ m.own[p] = m.val[p]
=============================================================================
