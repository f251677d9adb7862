------------------------------- MODULE Future -------------------------------
(***************************************************************************)
(* Threads, futures and spawn scopes.  A program is a sequence of          *)
(* operations; each is run by at most one thread, which is named by it.    *)
(* Program 0 is the main thread.  Each event carries the thread t that it  *)
(* happened in.  Operations that can wait are a call event and, when they  *)
(* return, another: what may happen between them is any event of any other *)
(* thread.  Do(m, e) is the state after e, with mode "bad" if e cannot     *)
(* happen in m.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Open == "?any"
NoEx == [n |-> "", msg |-> ""]
NoCall == [c |-> "", k |-> -1, hit |-> ""]
NoOut == [ok |-> FALSE, v |-> "", ex |-> NoEx]
\* st: made -> run -> over (its function is left) -> ended (its thread is, too)
Thread(st, arg, by) ==
  [st |-> st, arg |-> arg, tries |-> 0, pr |-> <<>>,
   gs |-> <<>>,            \* guarded sections it is in: what each has deferred, the tries around it, how far it is
   gl |-> <<>>,            \* deferred by those an exception is leaving
   call |-> NoCall, exc |-> NoEx, out |-> NoOut,
   by |-> by,              \* thread that made it
   own |-> "",             \* spawn scope it belongs to, "" for a future
   known |-> FALSE,        \* somebody was told that it is done
   taken |-> FALSE]        \* its future was used up, or its handle is ready
Init0 == [mode |-> "go", why |-> "", th |-> (0 :> Thread("run", "", -1)), sc |-> [s \in {} |-> 0]]

Bad(m, w) == [m EXCEPT !.mode = "bad", !.why = w]
Ended(m, k) == m.th[k].st = "ended"
BodyOver(m, k) == m.th[k].st \in {"over", "ended"}
Handles(m, s) == m.sc[s].hs                       \* the threads spawned in a scope, in order
Ready(m, k) == m.th[k].taken
\* the first handle not ready whose thread failed; 0 if none
FirstFailed(m, s) ==
  LET h == Handles(m, s)
      F == {i \in DOMAIN h : ~Ready(m, h[i]) /\ BodyOver(m, h[i]) /\ ~m.th[h[i]].out.ok}
  IN IF F = {} THEN 0 ELSE CHOOSE i \in F : \A j \in F : i <= j
Take(m, K) == [m EXCEPT !.th = [k \in DOMAIN @ |-> IF k \in K THEN [@[k] EXCEPT !.taken = TRUE, !.known = TRUE] ELSE @[k]]]

\* an exception is thrown in thread t: a try of its function takes it, or the function is left with it
\* A call was told that there is no memory, or no thread: it is as if it had not been made
Undone(m, t) ==
  LET c == m.th[t].call IN
  CASE c.c \in {"async", "spawn"} ->
         [m EXCEPT !.th = [k \in DOMAIN @ \ {c.k} |-> @[k]],
                   !.sc = IF c.c = "async" THEN @
                          ELSE [s \in DOMAIN @ |-> IF @[s].hs # <<>> /\ @[s].hs[Len(@[s].hs)] = c.k
                                                    THEN [@[s] EXCEPT !.hs = SubSeq(@, 1, Len(@) - 1)] ELSE @[s]]]
    [] c.c = "scope" -> [m EXCEPT !.sc = [s \in DOMAIN @ \ {c.s} |-> @[s]]]
    \* which results it has taken over is not told, until it has them all
    [] c.c = "sync" -> [m EXCEPT !.sc[c.s].half = TRUE]
    [] OTHER -> m
ThrowIn(m, t, x) ==
  LET m1 == [m EXCEPT !.th[t].call = NoCall] IN
  LET gs == m1.th[t].gs
      ds(q) == [i \in DOMAIN q |-> q[i].d]
      n == m1.th[t].tries IN
  IF n > 0 THEN [m1 EXCEPT !.th[t].exc = x, !.th[t].gs = SelectSeq(gs, LAMBDA g : g.at < n),
                           !.th[t].gl = ds(SelectSeq(gs, LAMBDA g : g.at >= n))]
  ELSE [m1 EXCEPT !.th[t].st = "over", !.th[t].gs = <<>>, !.th[t].pr = @ \o ds(gs), !.th[t].out = [ok |-> FALSE, v |-> "", ex |-> x]]

\* A call that throws shows only by what its thread does next
Returns == {"got", "synced", "resultd", "doned", "waited", "asyncd", "spawned", "find", "thencall", "thend", "scoped"}
Thrown(m, t) ==
  LET c == m.th[t].call IN
  CASE c.hit = "nomem" -> ThrowIn(Undone(m, t), t, [n |-> "panic", msg |-> Open])
    [] c.hit = "refused" -> ThrowIn(Undone(m, t), t, [n |-> "future_error", msg |-> Open])
    [] c.c = "get" ->
         IF ~Ended(m, c.k) THEN Bad(m, "got before the thread ended")
         ELSE IF m.th[c.k].out.ok THEN Bad(m, "exception of a thread that did not fail")
         ELSE ThrowIn(Take(m, {c.k}), t, m.th[c.k].out.ex)
    [] c.c = "sync" ->
         LET h == Handles(m, c.s)  i == FirstFailed(m, c.s) IN
         IF i = 0 THEN Bad(m, "exception though no thread failed")
         ELSE IF \E j \in 1..i : ~Ready(m, h[j]) /\ ~Ended(m, h[j]) THEN Bad(m, "thrown before the threads ended")
         ELSE ThrowIn(Take(m, {h[j] : j \in 1..i}), t, m.th[h[i]].out.ex)
    [] c.c = "result" ->
         IF Ready(m, c.k) THEN Bad(m, "result is ready") ELSE ThrowIn(m, t, [n |-> "logic_error", msg |-> Open])
    [] c.c = "lost" -> ThrowIn(m, t, [n |-> "panic", msg |-> Open])
    [] OTHER -> Bad(m, "call did not return")

\* its function is left, be it by an exception that only its next event would show
Left(m, k) ==
  \/ BodyOver(m, k)
  \/ /\ (m.th[k].call.c \in {"get", "sync", "result", "lost"} \/ m.th[k].call.hit # "")
     /\ LET x == Thrown(m, k) IN x.mode = "go" /\ x.th[k].st = "over"

Same(a, b) == a = Open \/ a = b

Run(m, t, e) ==
  LET th == m.th[t] IN
  IF th.exc # NoEx THEN
    (IF th.gl # <<>> THEN
      (IF e.e # "run" \/ e.d # th.gl[Len(th.gl)] THEN Bad(m, "not the last defer of a section")
       ELSE [m EXCEPT !.th[t].gl = SubSeq(@, 1, Len(@) - 1)])
     ELSE IF e.e # "caught" THEN Bad(m, "goes on after an exception")
     ELSE IF e.n # th.exc.n \/ ~Same(th.exc.msg, e.m) THEN Bad(m, "other exception")
     ELSE [m EXCEPT !.th[t].exc = NoEx, !.th[t].tries = @ - 1])
  ELSE
  LET g == Len(th.gs) IN
  IF g > 0 /\ th.gs[g].ph = "leaving" THEN
    (IF e.e # "run" \/ e.d # th.gs[g].d THEN Bad(m, "not the last defer of a section") ELSE [m EXCEPT !.th[t].gs[g].ph = "left"])
  ELSE IF g > 0 /\ th.gs[g].ph = "left" THEN
    (IF e.e # "gdone" THEN Bad(m, "section not left") ELSE [m EXCEPT !.th[t].gs = SubSeq(@, 1, g - 1)])
  ELSE
  CASE e.e = "guard" -> [m EXCEPT !.th[t].gs = Append(@, [d |-> e.d, at |-> th.tries, ph |-> "in"])]
    [] e.e = "gleave" -> IF g = 0 THEN Bad(m, "script") ELSE [m EXCEPT !.th[t].gs[g].ph = "leaving"]
    [] e.e = "try" -> [m EXCEPT !.th[t].tries = @ + 1]
    [] e.e = "tryend" -> [m EXCEPT !.th[t].tries = @ - 1]
    [] e.e = "reg" -> [m EXCEPT !.th[t].pr = Append(@, e.d)]
    [] e.e = "throw" -> ThrowIn(m, t, [n |-> e.n, msg |-> e.m])
    [] e.e = "ret" -> IF g > 0 THEN Bad(m, "script") ELSE [m EXCEPT !.th[t].st = "over", !.th[t].out = [ok |-> TRUE, v |-> e.v, ex |-> NoEx]]
    [] e.e = "async" ->
         IF e.k \in DOMAIN m.th THEN Bad(m, "script")
         ELSE [m EXCEPT !.th = (e.k :> Thread("made", e.a, t)) @@ @, !.th[t].call = [NoCall EXCEPT !.c = "async", !.k = e.k]]
    [] e.e = "scope" -> [m EXCEPT !.sc = (e.s :> [hs |-> <<>>, own |-> t, half |-> FALSE]) @@ @,
                                !.th[t].call = [c |-> "scope", k |-> -1, s |-> e.s, hit |-> ""]]
    [] e.e = "spawn" ->
         IF e.k \in DOMAIN m.th THEN Bad(m, "script")
         ELSE [m EXCEPT !.th = (e.k :> [Thread("made", e.a, t) EXCEPT !.own = e.s]) @@ @,
                        !.sc[e.s].hs = Append(@, e.k),
                        !.th[t].call = [NoCall EXCEPT !.c = "spawn", !.k = e.k]]
    \* a thread of no scope: there is none to wait for it
    [] e.e = "lost" -> IF \E s \in DOMAIN m.sc : m.sc[s].own = t THEN Bad(m, "script")
                       ELSE [m EXCEPT !.th[t].call = [NoCall EXCEPT !.c = "lost"]]
    [] e.e = "get" -> IF m.th[e.k].taken \/ m.th[e.k].own # "" THEN Bad(m, "script")
                      ELSE [m EXCEPT !.th[t].call = [NoCall EXCEPT !.c = "get", !.k = e.k]]
    [] e.e = "done" ->       \* told before, or ended before: it has to be so still
         [m EXCEPT !.th[t].call = [c |-> "done", k |-> e.k, hit |-> "", must |-> m.th[e.k].known \/ Ended(m, e.k)]]
    [] e.e = "wait" -> [m EXCEPT !.th[t].call = [NoCall EXCEPT !.c = "wait", !.k = e.k]]
    [] e.e = "sync" -> [m EXCEPT !.th[t].call = [c |-> "sync", k |-> -1, s |-> e.s, hit |-> ""]]
    [] e.e = "result" -> IF m.th[e.k].own \in DOMAIN m.sc /\ m.sc[m.th[e.k].own].half THEN Bad(m, "script")
                         ELSE [m EXCEPT !.th[t].call = [NoCall EXCEPT !.c = "result", !.k = e.k]]
    [] e.e = "then" ->
         IF m.sc[e.s].half THEN Bad(m, "script") ELSE
         [m EXCEPT !.th[t].call = [c |-> "then", k |-> -1, s |-> e.s, hit |-> "", left |-> SelectSeq([i \in DOMAIN Handles(m, e.s) |-> i], LAMBDA i : Ready(m, Handles(m, e.s)[i])),
                                   acc |-> 100]]
    [] e.e = "fin" ->
         [m EXCEPT !.th[t].call = [c |-> "fin", k |-> -1, s |-> e.s, hit |-> "",
                                   must |-> \A i \in DOMAIN Handles(m, e.s) : m.th[Handles(m, e.s)[i]].known \/ Ended(m, Handles(m, e.s)[i])]]
    [] e.e = "destroy" ->
         IF \E i \in DOMAIN Handles(m, e.s) : ~Ready(m, Handles(m, e.s)[i]) THEN Bad(m, "script")
         ELSE [m EXCEPT !.sc = [s \in DOMAIN @ \ {e.s} |-> @[s]]]
    [] OTHER -> Bad(m, "unexpected event")

\* a call returns
Return(m, t, e) ==
  LET c == m.th[t].call
      m1 == [m EXCEPT !.th[t].call = NoCall] IN
  CASE c.hit # "" -> Bad(m, "returns though there was no memory, or no thread")
    [] e.e = "scoped" -> IF c.c = "scope" THEN m1 ELSE Bad(m, "return")
    [] e.e \in {"asyncd", "spawned"} -> IF c.c \in {"async", "spawn"} /\ c.k = e.k THEN m1 ELSE Bad(m, "return")
    [] e.e = "got" ->
         IF c.c # "get" \/ c.k # e.k THEN Bad(m, "return")
         ELSE IF ~Ended(m, c.k) THEN Bad(m, "got before the thread ended")
         ELSE IF ~m.th[c.k].out.ok THEN Bad(m, "a failed thread's result")
         ELSE IF m.th[c.k].out.v # e.v THEN Bad(m, "other result")
         ELSE Take(m1, {c.k})
    [] e.e = "synced" ->
         IF c.c # "sync" THEN Bad(m, "return")
         ELSE LET h == Handles(m, c.s) IN
              IF \E i \in DOMAIN h : ~Ready(m, h[i]) /\ (~Ended(m, h[i]) \/ ~m.th[h[i]].out.ok) THEN Bad(m, "synced too early")
              ELSE [Take(m1, {h[i] : i \in DOMAIN h}) EXCEPT !.sc[c.s].half = FALSE]
    [] e.e = "resultd" ->
         IF c.c # "result" \/ c.k # e.k THEN Bad(m, "return")
         ELSE IF ~Ready(m, c.k) THEN Bad(m, "result before it is ready")
         ELSE IF m.th[c.k].out.ok /\ m.th[c.k].out.v # e.v THEN Bad(m, "other result")
         ELSE m1
    [] e.e = "doned" ->
         IF c.c # "done" \/ c.k # e.k THEN Bad(m, "return")
         ELSE IF e.r = 1 /\ ~Left(m, c.k) THEN Bad(m, "done too early")
         ELSE IF e.r = 0 /\ c.must THEN Bad(m, "not done any more")
         ELSE IF e.r = 1 THEN [m1 EXCEPT !.th[c.k].known = TRUE] ELSE m1
    [] e.e = "waited" ->
         IF c.c # "wait" \/ c.k # e.k THEN Bad(m, "return")
         ELSE IF ~Left(m, c.k) THEN Bad(m, "waited too short")
         ELSE [m1 EXCEPT !.th[c.k].known = TRUE]
    [] e.e = "find" ->
         IF c.c # "fin" THEN Bad(m, "return")
         ELSE LET h == Handles(m, c.s) IN
              IF e.r = 1 /\ \E i \in DOMAIN h : ~Left(m, h[i]) THEN Bad(m, "finished too early")
              ELSE IF e.r = 0 /\ c.must THEN Bad(m, "not finished any more")
              ELSE IF e.r = 1 THEN [m1 EXCEPT !.th = [k \in DOMAIN @ |-> IF \E i \in DOMAIN h : h[i] = k THEN [@[k] EXCEPT !.known = TRUE] ELSE @[k]]]
              ELSE m1
    [] e.e = "thencall" ->
         IF c.c # "then" \/ c.left = <<>> THEN Bad(m, "return")
         ELSE LET i == Head(c.left)  o == m.th[Handles(m, c.s)[i]].out IN
              IF e.i # i - 1 \/ (o.ok /\ e.v # o.v) \/ e.acc # c.acc THEN Bad(m, "other call of then")
              ELSE [m EXCEPT !.th[t].call.left = Tail(c.left), !.th[t].call.acc = @ + 1]
    [] e.e = "thend" ->
         IF c.c # "then" \/ c.left # <<>> THEN Bad(m, "calls of then missing") ELSE m1

\* whether a thread's function may be left, and what follows
After(m, t, e) ==
  LET th == m.th[t] IN
  CASE e.e = "run" -> IF th.pr = <<>> \/ th.pr[Len(th.pr)] # e.d THEN Bad(m, "not the last defer")
                      ELSE [m EXCEPT !.th[t].pr = SubSeq(@, 1, Len(@) - 1)]
    [] e.e = "tend" -> IF th.pr # <<>> THEN Bad(m, "defers left") ELSE [m EXCEPT !.th[t].st = "ended"]
    [] OTHER -> Bad(m, "function is over")

Exit(m, e) ==
  IF e.how # "code" \/ e.v # 0 THEN Bad(m, "end of process")
  ELSE IF \E k \in DOMAIN m.th : k # 0 /\ m.th[k].st # "ended" THEN Bad(m, "script")
  ELSE IF m.th[0].st # "over" \/ m.th[0].pr # <<>> THEN Bad(m, "defers left")
  ELSE IF e.bad # 0 \/ e.smash # 0 THEN Bad(m, "memory misused")
  ELSE IF e.live # 0 THEN Bad(m, "memory not released")
  ELSE [m EXCEPT !.mode = "over"]

\* thread u is making thread k
MakesOf(m, u, k) == m.th[u].call.c \in {"async", "spawn"} /\ m.th[u].call.k = k
Do(m, e) ==
  IF m.mode = "over" THEN Bad(m, "after the end")
  ELSE IF e.e = "exit" THEN Exit(m, e)
  ELSE IF e.e = "stuck" THEN Bad(m, "stuck: " \o e.how)
  ELSE IF e.t \notin DOMAIN m.th THEN Bad(m, "no such thread")
  ELSE IF e.e = "start" THEN
    (IF m.th[e.t].st # "made" THEN Bad(m, "started twice")
     ELSE IF \E u \in DOMAIN m.th : MakesOf(m, u, e.t) /\ m.th[u].call.hit # "" THEN Bad(m, "started by a call that failed")
     ELSE IF e.a # m.th[e.t].arg THEN Bad(m, "other argument")
     ELSE [m EXCEPT !.th[e.t].st = "run"])
  ELSE IF m.th[e.t].st = "made" THEN Bad(m, "not started")
  ELSE IF e.e \in {"nomem", "refused"} /\ \E k \in DOMAIN m.th : MakesOf(m, e.t, k) /\ m.th[k].st # "made" THEN
    Bad(m, "the call fails with its thread started")
  ELSE IF e.e = "nomem" THEN
    (IF m.th[e.t].call.c \in {"async", "spawn", "scope", "sync", "get"} THEN [m EXCEPT !.th[e.t].call.hit = "nomem"] ELSE Bad(m, "script"))
  ELSE IF e.e = "refused" THEN
    (IF m.th[e.t].call.c \in {"async", "spawn"} THEN [m EXCEPT !.th[e.t].call.hit = "refused"] ELSE Bad(m, "script"))
  ELSE IF m.th[e.t].call.c # "" /\ e.e \in Returns THEN Return(m, e.t, e)
  ELSE IF e.e \in Returns THEN Bad(m, "returns twice")
  ELSE LET m1 == IF m.th[e.t].call.c # "" THEN Thrown(m, e.t) ELSE m IN
       IF m1.mode = "bad" THEN m1
       ELSE IF m1.th[e.t].st = "run" THEN Run(m1, e.t, e)
       ELSE IF m1.th[e.t].st = "over" THEN After(m1, e.t, e)
       ELSE Bad(m1, "thread has ended")
=============================================================================
