------------------------------ MODULE Atomics -------------------------------
(***************************************************************************)
(* Atomic objects, flags, spin locks, and what they order.                 *)
(*                                                                         *)
(* Values are sequences of bytes, least first.  Operations are a call      *)
(* event and, later, a return event.  Each operation takes effect at one   *)
(* point between the two; where, the events do not show, so a state has    *)
(* all the configurations cf that the events so far allow: the objects'    *)
(* values, and the results of operations that took effect and have yet to  *)
(* return.  A return that no configuration has is wrong.                   *)
(*                                                                         *)
(* Events "at" are the accesses an operation makes to its object, with     *)
(* their memory orders; vector clocks follow what happens before what.     *)
(* Plain data is given to threads by lock, flag or message: an access that *)
(* does not happen after the conflicting ones before it is a data race.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Zero(n) == [i \in 1..n |-> 0]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
RECURSIVE Sum(_, _, _, _)
Sum(x, y, i, c) == IF i > Len(x) THEN <<>> ELSE LET s == x[i] + y[i] + c IN <<s % 256>> \o Sum(x, y, i + 1, s \div 256)
Neg(y) == Sum([i \in DOMAIN y |-> 255 - y[i]], One(Len(y)), 1, 0)
Map2(f(_, _), x, y) == [i \in DOMAIN x |-> f(x[i], y[i])]
BAnd(a, b) == a & b
BOr(a, b) == a | b
BXor(a, b) == a ^^ b

\* the outcomes of an operation on a value: <<new value, result>>
Outcomes(v, p) ==
  LET n == Len(v) IN
  CASE p.op = "load" -> {<<v, v>>}
    [] p.op = "store" -> {<<p.a, <<>>>>}
    [] p.op = "xchg" -> {<<p.a, v>>}
    [] p.op = "add" -> {<<Sum(v, p.a, 1, 0), v>>}
    [] p.op = "sub" -> {<<Sum(v, Neg(p.a), 1, 0), v>>}
    [] p.op = "or" -> {<<Map2(BOr, v, p.a), v>>}
    [] p.op = "xor" -> {<<Map2(BXor, v, p.a), v>>}
    [] p.op = "and" -> {<<Map2(BAnd, v, p.a), v>>}
    [] p.op = "cas" -> IF v = p.a THEN {<<p.b, <<1>> \o p.a>>} ELSE {<<v, <<0>> \o v>>}
    [] p.op = "casw" -> {<<v, <<0>> \o v>>} \cup (IF v = p.a THEN {<<p.b, <<1>> \o p.a>>} ELSE {})
    [] p.op = "cswap" -> IF v = p.a THEN {<<p.b, v>>} ELSE {<<v, v>>}
    [] p.op = "tas" -> {<<One(n), v>>}
    [] p.op = "clear" -> {<<Zero(n), <<>>>>}
    [] p.op = "lock" -> IF v = Zero(n) THEN {<<One(n), <<>>>>} ELSE {}
    [] p.op = "unlock" -> {<<Zero(n), <<>>>>}
    [] p.op = "await" -> IF v = p.a THEN {<<v, v>>} ELSE {}
    [] OTHER -> {}

No == <<-1>>
NoOp == [op |-> "", o |-> "", a |-> <<>>, b |-> <<>>, sc |-> FALSE, at |-> FALSE, weak |-> FALSE, fence |-> FALSE]
Clock == [t \in {} |-> 0]
Get(c, t) == IF t \in DOMAIN c THEN c[t] ELSE 0
Join(c, d) == [t \in DOMAIN c \cup DOMAIN d |-> IF Get(c, t) > Get(d, t) THEN Get(c, t) ELSE Get(d, t)]
Thread(c, t) == [p |-> NoOp, c |-> Join(c, (t :> 1)), fr |-> Clock, fa |-> Clock, st |-> "run"]

Init0 == [mode |-> "go", why |-> "",
          cf |-> {[v |-> [o \in {} |-> <<>>], r |-> [t \in {} |-> No]]},
          th |-> (0 :> Thread(Clock, 0)),
          rel |-> [o \in {} |-> Clock],          \* what a reader of the object's value is told of
          dat |-> [d \in {} |-> 0]]
Bad(m, w) == [m EXCEPT !.mode = "bad", !.why = w]

\* ---- taking effect
Pending(m) == {t \in DOMAIN m.th : m.th[t].p.op \notin {"", "fence"}}
RECURSIVE Close(_, _)
Close(m, S) ==
  LET New == UNION {{[v |-> [c.v EXCEPT ![m.th[t].p.o] = x[1]], r |-> (t :> x[2]) @@ c.r] :
                     x \in Outcomes(c.v[m.th[t].p.o], m.th[t].p)} :
                    <<c, t>> \in {z \in S \X Pending(m) : z[2] \notin DOMAIN z[1].r}}
      All == S \cup New
  IN IF All = S THEN S ELSE Close(m, All)

\* ---- what happens before what
Acquire(ord) == ord \in {1, 2, 4, 5}
Release(ord) == ord \in {3, 4, 5}
\* time passes in t: what it does from now on is not what it told of
Tick(m, t) == [m EXCEPT !.th[t].c = (t :> Get(@, t) + 1) @@ @]
ReadAt(m, t, o, ord) ==
  IF Acquire(ord) THEN [m EXCEPT !.th[t].c = Join(@, m.rel[o])]
  ELSE [m EXCEPT !.th[t].fa = Join(@, m.rel[o])]
\* a store tells of what t did (release), or did before its last fence; an update also of what it read
WriteAt(m, t, o, ord, keep) ==
  LET told == IF Release(ord) THEN m.th[t].c ELSE m.th[t].fr
  IN Tick([m EXCEPT !.rel[o] = IF keep THEN Join(@, told) ELSE told], t)
At(m, e) ==
  LET t == e.t  p == m.th[t].p
      m0 == [m EXCEPT !.th[t].p.at = TRUE, !.th[t].p.weak = @ \/ e.ord # 5] IN
  CASE e.k = "r" -> ReadAt(m0, t, e.o, e.ord)
    [] e.k = "w" -> WriteAt(m0, t, e.o, e.ord, FALSE)
    [] e.k = "u" -> WriteAt(ReadAt(m0, t, e.o, e.ord), t, e.o, e.ord, TRUE)
    [] e.k = "f" ->
         LET m1 == IF Acquire(e.ord) THEN [m EXCEPT !.th[t].p.fence = @ \/ e.ord = 5] ELSE m
             m2 == IF Acquire(e.ord) THEN [m1 EXCEPT !.th[t].c = Join(@, m1.th[t].fa)] ELSE m1
             m3 == IF Release(e.ord) THEN [m2 EXCEPT !.th[t].fr = m2.th[t].c] ELSE m2
         IN Tick(m3, t)
\* an operation none of whose accesses could be seen is taken to order everything
Unseen(m, t, o) == [m EXCEPT !.rel[o] = Join(@, m.th[t].c), !.th[t].c = Join(@, m.rel[o])]

Before(a, c) == \A t \in DOMAIN a : a[t] <= Get(c, t)
Data(m, e) ==
  LET t == e.t  c == m.th[t].c
      x == IF e.d \in DOMAIN m.dat THEN m.dat[e.d] ELSE [w |-> Clock, r |-> Clock, v |-> 0]
      mine == (t :> Get(c, t))
  IN IF e.e = "dw" THEN
       (IF ~Before(x.w, c) \/ ~Before(x.r, c) THEN Bad(m, "data race")
        ELSE [m EXCEPT !.dat = (e.d :> [w |-> mine, r |-> Clock, v |-> e.v]) @@ @])
     ELSE IF ~Before(x.w, c) THEN Bad(m, "data race")
     ELSE IF e.v # x.v THEN Bad(m, "data changed")
     ELSE [m EXCEPT !.dat = (e.d :> [x EXCEPT !.r = Join(@, mine)]) @@ @]

Call(m, e) ==
  IF m.th[e.t].p.op # "" THEN Bad(m, "script")
  ELSE [m EXCEPT !.th[e.t].p = [NoOp EXCEPT !.op = e.op, !.o = e.o, !.a = e.a, !.b = e.b, !.sc = e.sc]]

Ret(m, e) ==
  LET t == e.t  p == m.th[t].p
      m1 == [m EXCEPT !.th[t].p = NoOp]
      S == {c \in Close(m, m.cf) : t \in DOMAIN c.r /\ c.r[t] = e.r}
      m2 == [m1 EXCEPT !.cf = {[c EXCEPT !.r = [u \in DOMAIN c.r \ {t} |-> c.r[u]]] : c \in S}]
  IN IF p.op = "" THEN Bad(m, "returns twice")
     ELSE IF p.op = "fence" THEN m1
     ELSE IF p.op = "lockfree" THEN (IF e.r = <<1>> THEN m1 ELSE Bad(m, "not lock free"))
     ELSE IF S = {} THEN Bad(m, "no order of the operations has this result")
     ELSE IF p.sc /\ p.at /\ p.weak /\ ~p.fence THEN Bad(m, "weaker order")
     ELSE IF ~p.at THEN Unseen(m2, t, p.o) ELSE m2

Do(m, e) ==
  IF m.mode = "over" THEN Bad(m, "after the end")
  ELSE IF e.e = "exit" THEN
    (IF e.how # "code" \/ e.v # 0 THEN Bad(m, "end of process")
     ELSE IF \E t \in DOMAIN m.th : t # 0 /\ m.th[t].st # "joined" THEN Bad(m, "threads left")
     ELSE [m EXCEPT !.mode = "over"])
  ELSE IF e.e = "stuck" THEN Bad(m, "stuck: " \o e.how)
  ELSE CASE
     e.e = "obj" -> [m EXCEPT !.cf = {[c EXCEPT !.v = (e.o :> e.v) @@ @] : c \in @}, !.rel = (e.o :> Clock) @@ @]
  [] e.e = "fork" -> Tick([m EXCEPT !.th = (e.k :> Thread(m.th[e.t].c, e.k)) @@ @], e.t)
  [] e.e = "tend" -> [m EXCEPT !.th[e.t].st = "over"]
  [] e.e = "join" -> IF m.th[e.k].st # "over" THEN Bad(m, "joined before it ended")
                     ELSE [m EXCEPT !.th[e.k].st = "joined", !.th[e.t].c = Join(@, m.th[e.k].c)]
  [] e.e = "call" -> Call(m, e)
  [] e.e = "ret" -> Ret(m, e)
  [] e.e = "at" -> At(m, e)
  [] e.e \in {"dw", "dr"} -> Data(m, e)
  [] OTHER -> Bad(m, "unexpected event")
=============================================================================
