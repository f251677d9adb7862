-------------------------------- MODULE Arena --------------------------------
(***************************************************************************)
(* Arenas: what they give, what they own, and where cleared memory goes.   *)
(* Memory comes in chunks, got from and given back to the system; a chunk  *)
(* is known from the first block given in it.  Operations of a thread are  *)
(* a begin event and an end event; chunks given back in between are `rel`. *)
(* Do(m, e) is the state after e, mode "bad" if e cannot happen in m.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slack == 512          \* of a chunk, not usable for blocks

Init0 ==
  [mode |-> "go", why |-> "",
   ar |-> [a \in {} |-> 0],       \* arena -> [k, pr, cap]: kind, the scope's defers, what is left of its chunk (-1: not known)
   blk |-> {},                    \* blocks given: [a, off, n, base]
   ch |-> [b \in {} |-> 0],       \* chunk -> [own, size, sure]; own -1: nobody's; sure: an arena in need has to use it
   op |-> [t \in {} |-> 0],       \* what each thread is in the middle of
   mix |-> {},                    \* threads that were not alone since they began it
   th |-> 0,                      \* the greatest threshold of an arena
   fails |-> 0]                   \* failures of the system since the operation began

Bad(m, w) == [m EXCEPT !.mode = "bad", !.why = w]
Busy(m) == DOMAIN m.op
Begin(m, t, x) == IF t \in Busy(m) THEN Bad(m, "script")
                  ELSE [m EXCEPT !.op = (t :> x) @@ @, !.mix = IF Busy(m) = {} THEN @ ELSE @ \cup Busy(m) \cup {t}]
EndOp(m, t) == [m EXCEPT !.op = [u \in DOMAIN @ \ {t} |-> @[u]], !.mix = @ \ {t}, !.fails = 0]
Alone(m, t) == Busy(m) \subseteq {t} /\ t \notin m.mix       \* all the time of its operation
BlocksIn(m, b) == {x \in m.blk : x.base = b}

\* when several threads are at work, which chunk is free is not known at any one time
Unsure(m) == [m EXCEPT !.ch = [b \in DOMAIN @ |-> [@[b] EXCEPT !.sure = FALSE]]]

Give(m, e) ==
  LET b == e.base
      known == b \in DOMAIN m.ch
      own == IF known THEN m.ch[b].own ELSE -1
      enough == {c \in DOMAIN m.ch : m.ch[c].sure /\ m.ch[c].size >= e.n + Slack}
      m1 == [m EXCEPT
        !.ar[e.a].cap = -1,
        !.blk = @ \cup {[a |-> e.a, off |-> e.off, n |-> e.n, base |-> b]},
        \* chunks too small may have been looked at, and kept
        !.ch = (b :> [own |-> e.a, size |-> e.size, sure |-> FALSE]) @@
               [c \in DOMAIN @ |-> IF @[c].sure /\ (e.fresh > 0 \/ @[c].size < e.n + Slack) THEN [@[c] EXCEPT !.sure = FALSE] ELSE @[c]]]
  IN IF b = -1 THEN Bad(m, "not in memory of an arena")
     ELSE IF e.off < b \/ e.off + e.n > b + e.size THEN Bad(m, "block too short")
     ELSE IF e.off % 2 # 0 THEN Bad(m, "not aligned")
     ELSE IF m.ar[e.a].cap >= e.n + (e.n % 2) /\ e.fresh > 0 THEN Bad(m, "capacity was not there")
     ELSE IF e.z # 1 THEN Bad(m, "not zeroed")
     ELSE IF e.kept # 1 THEN Bad(m, "a block changed")
     ELSE IF \E x \in m.blk : x.off < e.off + e.n /\ e.off < x.off + x.n THEN Bad(m, "blocks overlap")
     ELSE IF \E x \in BlocksIn(m, b) : x.a # e.a THEN Bad(m, "chunk of another arena")
     ELSE IF e.fresh > 0 /\ Alone(m, e.t) /\ enough # {} THEN Bad(m, "cleared memory not used")
     ELSE IF Alone(m, e.t) THEN m1 ELSE Unsure(m1)

\* arena a gives up all it has
Release(m, a) == [m EXCEPT !.blk = {x \in @ : x.a # a},
                           !.ch = [c \in DOMAIN @ |-> IF @[c].own = a THEN [@[c] EXCEPT !.own = -1, !.sure = FALSE] ELSE @[c]]]
Mine(m, a) == {c \in DOMAIN m.ch : m.ch[c].own = a}
\* ... and it can be had by all
Offer(m, C) == [m EXCEPT !.ch = [c \in DOMAIN @ |-> IF c \in C /\ @[c].own = -1 THEN [@[c] EXCEPT !.sure = Alone(m, -1)] ELSE @[c]]]

Do(m, e) ==
  IF m.mode = "over" THEN Bad(m, "after the end")
  ELSE CASE e.e = "new" ->
       IF e.a \in DOMAIN m.ar THEN Bad(m, "script") ELSE [m EXCEPT !.ar = (e.a :> [k |-> e.k, pr |-> <<>>, cap |-> -1, th |-> e.th]) @@ @, !.fails = 0, !.th = IF e.th > @ THEN e.th ELSE @]
  [] e.e = "cap" -> [m EXCEPT !.ar[e.a].cap = e.c]
  [] e.e = "reg" -> [m EXCEPT !.ar[e.a].pr = Append(@, e.k), !.fails = 0]
  [] e.e = "noreg" -> IF m.fails = 0 THEN Bad(m, "failed though memory was there") ELSE [m EXCEPT !.fails = 0]
  [] e.e = "look" -> IF e.kept = 1 THEN m ELSE Bad(m, "a block changed")
  [] e.e = "alb" -> LET m1 == Begin(m, e.t, [o |-> "al", a |-> e.a, n |-> e.n]) IN IF Alone(m1, e.t) THEN m1 ELSE Unsure(m1)
  [] e.e = "al" ->
       IF e.t \notin Busy(m) \/ m.op[e.t].o # "al" \/ m.op[e.t].a # e.a \/ m.op[e.t].n # e.n THEN Bad(m, "script")
       ELSE LET m1 == Give(m, e) IN IF m1.mode = "bad" THEN m1 ELSE EndOp(m1, e.t)
  [] e.e = "afail" -> [m EXCEPT !.fails = @ + 1]
  [] e.e = "failed" ->        \* reported by an exception; nothing given, nothing lost
       IF m.fails = 0 THEN Bad(m, "failed though memory was there")
       ELSE IF e.kept # 1 THEN Bad(m, "a block changed")
       ELSE IF e.tot # 1 THEN Bad(m, "total changed though nothing was given")
       ELSE [Unsure(EndOp(m, e.t)) EXCEPT !.ar = [a \in DOMAIN @ |-> [@[a] EXCEPT !.cap = -1]]]
  [] e.e = "clear" ->
       Begin(Release([m EXCEPT !.ar[e.a].cap = -1], e.a), e.t, [o |-> "clear", a |-> e.a, had |-> Mine(m, e.a)])
  [] e.e = "cleared" ->
       IF e.kept # 1 THEN Bad(m, "a block changed")
       ELSE IF e.t \notin Busy(m) \/ m.op[e.t].o # "clear" THEN Bad(m, "script")
       ELSE LET had == m.op[e.t].had  m1 == EndOp(m, e.t) IN IF Alone(m, e.t) THEN Offer(m1, had) ELSE Unsure(m1)
  [] e.e = "free" ->
       IF m.ar[e.a].k = "arena" THEN Begin(Release(m, e.a), e.t, [o |-> "free", a |-> e.a, had |-> Mine(m, e.a)])
       ELSE Begin(m, e.t, [o |-> "free", a |-> e.a, had |-> Mine(m, e.a)])
  [] e.e = "probe" ->         \* the scope's defers, while its memory is still there
       IF e.t \notin Busy(m) \/ m.op[e.t].o # "free" THEN Bad(m, "defer run at another time")
       ELSE LET a == m.op[e.t].a  q == m.ar[a].pr IN
            IF q = <<>> \/ q[Len(q)] # e.k THEN Bad(m, "not the last defer")
            ELSE IF e.kept # 1 THEN Bad(m, "a block changed")
            ELSE [m EXCEPT !.ar[a].pr = SubSeq(@, 1, Len(@) - 1)]
  [] e.e = "rel" ->           \* a chunk goes back to the system
       IF e.base \notin DOMAIN m.ch THEN m
       ELSE IF e.t \notin Busy(m) THEN Bad(m, "released at another time")
       ELSE LET o == m.op[e.t]
                m1 == IF o.o = "free" /\ m.ar[o.a].pr = <<>> THEN Release(m, o.a) ELSE m IN
            IF o.o = "clear" /\ Alone(m, e.t) /\ Cardinality({c \in DOMAIN m.ch : m.ch[c].own = -1}) <= m.ar[o.a].th
            THEN Bad(m, "cleared memory given away")
            ELSE IF BlocksIn(m1, e.base) # {} THEN Bad(m, "chunk with blocks released")
            ELSE [m1 EXCEPT !.ch = [c \in DOMAIN @ \ {e.base} |-> @[c]]]
  [] e.e = "freed" ->
       IF e.t \notin Busy(m) \/ m.op[e.t].o # "free" THEN Bad(m, "script")
       ELSE IF m.ar[e.a].pr # <<>> THEN Bad(m, "defers left")
       ELSE IF e.kept # 1 THEN Bad(m, "a block changed")
       ELSE LET had == m.op[e.t].had
                m1 == [EndOp(Release(m, e.a), e.t) EXCEPT !.ar = [a \in DOMAIN @ \ {e.a} |-> @[a]]] IN
            IF Alone(m, e.t) THEN Offer(m1, had) ELSE Unsure(m1)
  [] e.e = "stuck" -> Bad(m, "stuck: " \o e.how)
  [] e.e = "exit" ->
       IF e.how # "code" \/ e.v # 0 THEN Bad(m, "end of process")
       ELSE IF e.bad # 0 \/ e.smash # 0 THEN Bad(m, "memory misused")
       ELSE IF Busy(m) # {} THEN Bad(m, "operation not finished")
       ELSE IF DOMAIN m.ar = {} /\ Cardinality(DOMAIN m.ch) > m.th THEN Bad(m, "more cleared memory kept than asked for")
       ELSE IF DOMAIN m.ar = {} /\ e.live > Cardinality(DOMAIN m.ch) THEN Bad(m, "memory lost")
       ELSE [m EXCEPT !.mode = "over"]
  [] OTHER -> Bad(m, "unexpected event")
=============================================================================
