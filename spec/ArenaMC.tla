-------------------------------- MODULE ArenaMC --------------------------------
(* All short histories of a few arenas and threads over a small memory, with     *)
(* every answer a library could give; the invariants look at the history alone.  *)
EXTENDS Arena
CONSTANTS Arenas, Threads, MaxOps, Chunks
VARIABLES m, n, h
vars == <<m, n, h>>
\* sizes are in units of Slack, so that chunks of 2 and 4 hold blocks of 1 and 3
Size(b) == Slack * (IF b = 0 THEN 3 ELSE 4)
Base(b) == Slack * 10 * b
Bases == {Base(b) : b \in Chunks}
BSize(b) == IF b \in Bases THEN Size(b \div (Slack * 10)) ELSE 0
\* h: what each arena was given since its last clear; which chunks the system got back; the last answer
Init == m = Init0 /\ n = 0 /\ h = [given |-> {}, back |-> <<>>, lost |-> FALSE]
Ns == {Slack, 2 * Slack}
Events ==
  {[e |-> "new", t |-> 0, a |-> a, k |-> k, th |-> 10] : a \in Arenas \ DOMAIN m.ar, k \in {"arena", "scope"}}
  \cup {[e |-> "reg", t |-> 0, a |-> a, k |-> 1] : a \in {a \in DOMAIN m.ar : m.ar[a].k = "scope" /\ m.ar[a].pr = <<>>}}
  \cup {[e |-> "alb", t |-> t, a |-> a, n |-> k] : t \in Threads \ Busy(m), a \in {a \in DOMAIN m.ar : \A t \in Busy(m) : m.op[t].a # a}, k \in Ns}
  \cup {[e |-> x, t |-> t, a |-> a] : x \in {"clear", "free"}, t \in Threads \ Busy(m), a \in {a \in DOMAIN m.ar : \A t \in Busy(m) : m.op[t].a # a}}
Answers ==
  {[e |-> "al", t |-> t, a |-> m.op[t].a, n |-> m.op[t].n, off |-> b + Slack * o, base |-> b, size |-> BSize(b), z |-> 1, kept |-> 1, fresh |-> f] :
       t \in {t \in Busy(m) : m.op[t].o = "al"}, b \in Bases, o \in 1..3, f \in {0, 1}}
  \cup {[e |-> "rel", t |-> t, base |-> b] : t \in Busy(m), b \in DOMAIN m.ch}
  \cup {[e |-> "probe", t |-> t, k |-> k, kept |-> 1] : t \in Busy(m), k \in {1}}
  \cup {[e |-> "cleared", t |-> t, a |-> m.op[t].a, kept |-> 1] : t \in {t \in Busy(m) : m.op[t].o = "clear"}}
  \cup {[e |-> "freed", t |-> t, a |-> m.op[t].a, kept |-> 1] : t \in {t \in Busy(m) : m.op[t].o = "free"}}
Hist(e) ==
  CASE e.e = "al" -> [h EXCEPT !.given = @ \cup {[a |-> e.a, off |-> e.off, n |-> e.n, base |-> e.base]},
                               !.back = SelectSeq(@, LAMBDA b : b # e.base)]       \* got anew
    [] e.e = "clear" \/ (e.e = "free" /\ m.ar[e.a].k = "arena") \/ e.e = "freed" -> [h EXCEPT !.given = {x \in @ : x.a # e.a}]
    [] e.e = "rel" -> [h EXCEPT !.back = Append(@, e.base),
                                !.given = IF m.op[e.t].o = "free" /\ m.ar[m.op[e.t].a].pr = <<>> THEN {x \in @ : x.a # m.op[e.t].a} ELSE @,
                                !.lost = @ \/ \E x \in h.given : x.base = e.base /\ (x.a # m.op[e.t].a \/ m.op[e.t].o # "free" \/ m.ar[x.a].pr # <<>>)]
    [] OTHER -> h
Step(e, op) == /\ op => n < MaxOps
               /\ LET x == Do(m, e) IN x.mode # "bad" /\ m' = x
               /\ n' = IF op THEN n + 1 ELSE n
               /\ h' = Hist(e)
Next == (\E e \in Events : Step(e, TRUE)) \/ (\E e \in Answers : Step(e, FALSE))
Spec == Init /\ [][Next]_vars
Disjoint == \A x, y \in h.given : x = y \/ x.off + x.n <= y.off \/ y.off + y.n <= x.off
Inside == \A x \in h.given : x.base <= x.off /\ x.off + x.n <= x.base + BSize(x.base)
\* a chunk holds blocks of one arena
OneOwner == \A x, y \in h.given : x.base = y.base => x.a = y.a
\* a chunk is not given back twice, nor while an arena's blocks are in it
Once == \A i, j \in DOMAIN h.back : h.back[i] = h.back[j] => i = j
NotLost == ~h.lost
Known == \A x \in m.blk : x \in h.given
\* an arena that cleared all can serve again, from memory there is, if nobody else does anything
Again == \A c \in DOMAIN m.ch : m.ch[c].sure => BlocksIn(m, c) = {}
=============================================================================
