--------------------------------- MODULE Tls ---------------------------------
(***************************************************************************)
(* Variables that have a value for each thread (cthread.h: thrd_local,     *)
(* thrd_static, their plain and extern forms).  A variable is a pointer:   *)
(* nothing, until its thread first asks for it and is given room of the    *)
(* thread's own, cleared, or sets it itself.                               *)
(*                                                                         *)
(* Addresses are numbers: 0 nothing, negative the objects that the program *)
(* sets variables to, positive what the library came up with.              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

Unknown == -88888                     \* contents nobody vouches for
Init0 == [mode |-> "go", why |-> "",
          live |-> {0},
          val  |-> [p \in {} |-> 0],       \* <<v, t>> -> address, where not nothing
          own  |-> [p \in {} |-> 0],       \* <<v, t>> -> the thread's own room, once seen
          mem  |-> [a \in {} |-> 0]]       \* address -> contents
Bad(m, w) == [m EXCEPT !.mode = "bad", !.why = w]
Val(m, p) == IF p \in DOMAIN m.val THEN m.val[p] ELSE 0
Mem(m, a) == IF a \in DOMAIN m.mem THEN m.mem[a] ELSE 0
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Rooms(m) == {m.own[p] : p \in DOMAIN m.own}

\* thread t asks for v and is told a
Ask(m, p, a) ==
  IF Val(m, p) # 0 THEN
    (IF a = Val(m, p) THEN m
     ELSE IF a \in Rooms(m) /\ (p \notin DOMAIN m.own \/ a # m.own[p]) THEN Bad(m, "another thread's or variable's")
     ELSE Bad(m, "not what the variable was"))
  ELSE IF p \in DOMAIN m.own THEN
    (IF a = m.own[p] THEN [m EXCEPT !.val = (p :> a) @@ @] ELSE Bad(m, "other room than before"))
  ELSE IF a <= 0 THEN Bad(m, "no room of its own")
  ELSE IF a \in Rooms(m) THEN Bad(m, "another thread's or variable's")
  ELSE [m EXCEPT !.own = (p :> a) @@ @, !.val = (p :> a) @@ @, !.mem = (a :> 0) @@ @]
Nothing(m, p) ==
  [m EXCEPT !.val = Without(@, {p}),
            !.mem = IF p \in DOMAIN m.own THEN (m.own[p] :> Unknown) @@ @ ELSE @]

Do(m, e) ==
  LET p == <<e.v, e.t>> IN
  CASE e.e = "get" -> Ask(m, p, e.x)
    [] e.e = "empty" -> IF e.x = (IF Val(m, p) = 0 THEN 1 ELSE 0) THEN m ELSE Bad(m, "empty or not")
    [] e.e = "del" -> Nothing(m, p)
    [] e.e = "update" -> IF e.x = 0 THEN Nothing(m, p) ELSE [m EXCEPT !.val = (p :> e.x) @@ @]
    [] e.e = "write" ->
         LET n == Ask(m, p, e.x) IN IF n.mode = "bad" THEN n ELSE [n EXCEPT !.mem = (e.x :> e.c) @@ @]
    [] e.e = "read" ->
         LET n == Ask(m, p, e.x) IN
         IF n.mode = "bad" THEN n
         ELSE IF Mem(n, e.x) \in {e.c, Unknown} THEN [n EXCEPT !.mem = (e.x :> e.c) @@ @] ELSE Bad(n, "other contents")
    [] e.e = "fork" -> [m EXCEPT !.live = @ \cup {e.k}]
    [] e.e = "tend" ->               \* its room goes with it
         LET mine == {q \in DOMAIN m.val : q[2] = e.t}  room == {q \in DOMAIN m.own : q[2] = e.t} IN
         [m EXCEPT !.live = @ \ {e.t}, !.val = Without(@, mine), !.own = Without(@, room)]
    [] e.e = "join" -> IF e.k \in m.live THEN Bad(m, "joined while it runs") ELSE m
    [] e.e = "exit" -> IF e.how = "code" /\ e.v = 0 THEN [m EXCEPT !.mode = "over"] ELSE Bad(m, "process ended")
    [] OTHER -> Bad(m, "unexpected event")
=============================================================================
