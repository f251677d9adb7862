-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* What handing work to a thread, and its result back, orders.  The events *)
(* are those of Future, together with the accesses to memory that several  *)
(* threads touch: the library's own records of futures, promises and       *)
(* scopes, and, as data, the argument given to a thread (written by its    *)
(* creator, read by the thread) and its result (written by the thread,     *)
(* read by whoever got it).  Vector clocks, those of Atomics, follow what  *)
(* happens before what; an access that is not ordered after a conflicting  *)
(* one before it is a data race.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
F == INSTANCE Future
A == INSTANCE Atomics

Init0 == [mode |-> "go", why |-> "", f |-> F!Init0,
          a |-> [mode |-> "go", why |-> "", th |-> (0 :> A!Thread(A!Clock, 0)), rel |-> [o \in {} |-> A!Clock], dat |-> [d \in {} |-> 0]],
          ix |-> (0 :> 0)]          \* program -> thread
Bad(m, w) == [m EXCEPT !.mode = "bad", !.why = w]

Obj(a, o) == IF o \in DOMAIN a.rel THEN a ELSE [a EXCEPT !.rel = (o :> A!Clock) @@ @]
Plain(a, t, d, w) == A!Data(a, [e |-> IF w THEN "dw" ELSE "dr", t |-> t, d |-> d, v |-> 0])
Fence(a, t, ord) ==
  LET a1 == IF A!Acquire(ord) THEN [a EXCEPT !.th[t].c = A!Join(@, a.th[t].fa)] ELSE a
      a2 == IF A!Release(ord) THEN [a1 EXCEPT !.th[t].fr = a1.th[t].c] ELSE a1
  IN A!Tick(a2, t)
Access(a, e) ==
  LET t == e.x IN
  CASE e.k = "R" -> Plain(a, t, e.a, FALSE)
    [] e.k = "W" -> Plain(a, t, e.a, TRUE)
    [] e.k = "r" -> A!ReadAt(Obj(a, e.a), t, e.a, e.ord)
    [] e.k = "w" -> A!WriteAt(Obj(a, e.a), t, e.a, e.ord, FALSE)
    [] e.k = "u" -> A!WriteAt(A!ReadAt(Obj(a, e.a), t, e.a, e.ord), t, e.a, e.ord, TRUE)
    [] e.k = "f" -> Fence(a, t, e.ord)

Arg(k) == "arg" \o ToString(k)
Res(k) == "res" \o ToString(k)
\* the data that an event of Future reads or writes, in the state before it
DataOf(m, e) ==
  LET x == m.ix[e.t] IN
  CASE e.e \in {"async", "spawn"} -> Plain(m.a, x, Arg(e.k), TRUE)
    [] e.e = "ret" -> Plain(m.a, x, Res(e.t), TRUE)
    [] e.e \in {"got", "resultd"} -> Plain(m.a, x, Res(e.k), FALSE)
    [] e.e = "thencall" ->
         LET c == m.f.th[e.t].call  k == m.f.sc[c.s].hs[e.i + 1] IN Plain(m.a, x, Res(k), FALSE)
    [] OTHER -> m.a

Do(m, e) ==
  CASE e.e = "at" -> LET a == Access(m.a, e) IN IF a.mode = "bad" THEN Bad(m, a.why) ELSE [m EXCEPT !.a = a]
    [] e.e = "fork" -> [m EXCEPT !.a = A!Tick([@ EXCEPT !.th = (e.c :> A!Thread(m.a.th[e.x].c, e.c)) @@ @], e.x)]
    [] e.e = "join" -> [m EXCEPT !.a.th[e.x].c = A!Join(@, m.a.th[e.c].c)]
    [] OTHER ->
         LET f == F!Do(m.f, e) IN
         IF f.mode = "bad" THEN Bad(m, f.why)
         ELSE IF e.e \in {"exit", "stuck"} THEN [m EXCEPT !.f = f, !.mode = f.mode]
         ELSE LET m1 == IF e.e = "start" THEN [m EXCEPT !.ix = (e.t :> e.x) @@ @] ELSE m
                  a == IF e.e = "start" THEN Plain(m.a, e.x, Arg(e.t), FALSE) ELSE DataOf(m1, e)
              IN IF a.mode = "bad" THEN Bad(m, a.why) ELSE [m1 EXCEPT !.f = f, !.a = a, !.mode = f.mode]
=============================================================================
