-------------------------------- MODULE Raii --------------------------------
(***************************************************************************)
(* Control state of one thread using c-raii: try/catch/finally contexts,   *)
(* guards, smart-pointer scopes with their defers and memory, protected    *)
(* pointers, signals turned into exceptions, and termination.              *)
(*                                                                         *)
(* The whole state is one record m.  Do(m, e) is the state after event e,  *)
(* with mode "bad" if e is not allowed in m.  An event is either a call of *)
(* the user program (try, defer, throw ...: its inputs), or something the  *)
(* library does in answer (run a defer, release a block, enter a catch     *)
(* clause, end the process: its outputs).  Settle performs the steps that  *)
(* nothing shows.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoEx == [n |-> "", msg |-> "", file |-> "", line |-> 0, fn |-> ""]
Open == "?any"     \* text the specification leaves open (a message of the library's own)

\* ------------------------------------------------------------- control stack
\* Contexts (base, try, guard) are what a throw looks for; the other entries
\* are what the thread is in the middle of.
Ctx(k, id, cl, fin, s) ==
  [k |-> k, id |-> id, st |-> 0, ex |-> NoEx, home |-> FALSE, cl |-> cl, fin |-> fin,
   prot |-> <<>>, ph |-> "body", ci |-> 0, s |-> s]
IsCtx(c) == c.k \in {"base", "try", "guard"}

Init0 ==
  [mode |-> "go", why |-> "",
   cs |-> <<Ctx("base", 0, <<>>, FALSE, "")>>,
   sc |-> [x \in {} |-> 0],         \* scope name -> [ent, prot, ar]
   blk |-> {},                      \* live blocks <<label, offset, size>>
   armed |-> FALSE,                 \* the usual signals are exceptions
   own |-> [s \in {} |-> ""],        \* signals the program has named an exception for
   ctrlc |-> FALSE,                 \* SIGINT seen
   terr |-> NoEx,                   \* what the thread's scope was last unwound for
   tcb |-> 0, ccb |-> 0,            \* callbacks installed; 2: one that throws
   hk |-> [s |-> "", f |-> 0],      \* the program's functions for what is thrown: the scope they are about, and whether it is to be unwound
   pend |-> "",                     \* an allocation failure to be reported by the running call
   told |-> {},                     \* exceptions that came to the end of the process, to be reported
   xv |-> 0, xhow |-> ""]           \* expected end of the process

Same(a, b) == a = Open \/ a = b
Text(x) == IF x.msg # "" THEN x.msg ELSE x.n

Bad(m, w) == [m EXCEPT !.mode = "bad", !.why = w]
Top(m) == m.cs[Len(m.cs)]
Pop(m) == [m EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1)]
Push(m, c) == [m EXCEPT !.cs = Append(@, c)]
SetTop(m, c) == [m EXCEPT !.cs[Len(m.cs)] = c]
CtxIx(m) == CHOOSE i \in 1..Len(m.cs) :
              /\ IsCtx(m.cs[i])
              /\ \A j \in (i+1)..Len(m.cs) : ~IsCtx(m.cs[j])
TopCtx(m) == m.cs[CtxIx(m)]
\* the top context is being unwound
Unwinding(m) == \E j \in (CtxIx(m)+1)..Len(m.cs) : m.cs[j].k = "unw"
\* the usual signals get their usual exceptions; a try, a guard and a scope see to it if it is not so
Usual == {1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 15, 28}
Harmless == 28                       \* ignored by default
Arm(m) == [m EXCEPT !.armed = TRUE, !.own = [s \in DOMAIN @ \ Usual |-> @[s]]]
Armed(m) == IF m.armed THEN m ELSE Arm(m)
HasT(m) == "T" \in DOMAIN m.sc
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Guards(m) == {i \in 1..Len(m.cs) : m.cs[i].k = "guard"}
TopGuard(m) == m.cs[CHOOSE i \in Guards(m) : \A j \in Guards(m) : j <= i]

Drain(m, s, why) == Push(m, [k |-> "drain", s |-> s, why |-> why])
Await(m, rec) == Push(m, [k |-> "aw", want |-> rec])

\* ------------------------------------------------------- throw and terminate
Terminate(m) ==
  LET m1 == Push(m, [k |-> "term", said |-> FALSE]) IN
  IF HasT(m) THEN Drain(m1, "T", "term") ELSE m1

NonNull(q) == SelectSeq(q, LAMBDA x : x.v # 0)

Throw(m, ex) ==
  LET i == CtxIx(m)  f == m.cs[i] IN
  IF Unwinding(m) THEN Terminate(m)
  ELSE LET f2 == [f EXCEPT !.ex = ex, !.prot = <<>>,
                  !.st = IF f.k = "guard" THEN 1 ELSE IF f.st \in {0, 1} THEN 1 ELSE 3]
           m2 == [m EXCEPT !.cs = Append(SubSeq(m.cs, 1, i - 1), f2)]
           hooked == m.hk.s # "" /\ f.k # "guard"        \* a guard's context is the library's
           m3 == IF f.home /\ HasT(m) /\ ~hooked THEN [m2 EXCEPT !.terr = ex] ELSE m2
           m4 == Push(m3, [k |-> "unw", left |-> NonNull(f.prot), hk |-> IF ~hooked THEN "-" ELSE IF m.hk.f = 1 THEN m.hk.s ELSE ""])
       IN IF ~hooked THEN m4
          ELSE Await(m4, IF ex.msg = Open THEN [e |-> "setup", n |-> ex.n] ELSE [e |-> "setup", n |-> ex.n, v |-> ex.msg])

\* scope that is unwound with its context, "" if none
UnwScope(m) ==
  LET f == TopCtx(m) IN
  IF f.k = "guard" THEN (IF m.sc[f.s].prot THEN f.s ELSE "")
  ELSE IF f.home /\ HasT(m) /\ m.sc["T"].prot THEN "T" ELSE ""

Odd(st) == st \in {1, 3}

\* the guard's own context is left: its scope ends, an exception goes on
GuardFin(m) ==
  LET g == Top(m)
      m1 == [Pop(m) EXCEPT !.sc = Drop(@, g.s)]
  IN IF Odd(g.st) THEN Throw(m1, g.ex) ELSE Await(m1, [e |-> "gdone", id |-> g.id, v |-> 7])

EndTry(m, id, st, ex) ==
  IF Odd(st) THEN Throw(m, ex) ELSE Await(m, [e |-> "tend", id |-> id])

ToFinally(m) ==
  LET f == Top(m)  m1 == Pop(m) IN
  IF f.fin THEN Push(m1, [k |-> "fin", id |-> f.id, st |-> f.st, ex |-> f.ex, ph |-> "aw"])
  ELSE EndTry(m1, f.id, f.st, f.ex)

\* "!" is finality: whatever it is ends here, unseen, and what follows is the finally block
Matches(c, ex) == c \in {"*", "?", "!"} \/ c = ex.n

NextClause(m, from) ==
  LET f == Top(m)
      C == {j \in from..Len(f.cl) : Matches(f.cl[j], f.ex)}
  IN IF f.st # 1 \/ C = {} THEN ToFinally(m)
     ELSE LET j == CHOOSE j \in C : \A k \in C : j <= k IN
          IF f.cl[j] = "!" THEN ToFinally(SetTop(m, [f EXCEPT !.st = 2])) ELSE
          SetTop(m, [f EXCEPT !.ph = "acatch", !.ci = j,
                              !.st = IF f.cl[j] = "?" THEN 1 ELSE 2])

Land(m) ==
  LET f == Top(m) IN
  CASE f.k = "base" -> Terminate(m)
    [] f.k = "guard" -> IF f.st = 2 THEN GuardFin(m)
                        ELSE Drain(SetTop(m, [f EXCEPT !.ph = "catch"]), f.s, "gcatch")
    [] OTHER -> IF f.st = 1 THEN NextClause(m, 1) ELSE ToFinally(m)

\* a scope's defers were all run
Drained(m) ==
  LET d == Top(m)
      m1 == [Pop(m) EXCEPT !.sc[d.s].prot = FALSE]
  IN CASE d.why \in {"clean", "term", "exit", "unw"} -> m1
       [] d.why = "del" -> [m1 EXCEPT !.sc = Drop(@, d.s), !.blk = {b \in @ : b[1] \notin m1.sc[d.s].ar}]
       [] d.why \in {"gend", "gcatch"} -> GuardFin(m1)
       [] d.why = "gret" ->
            LET g == Top(m1) IN
            Await([Pop(m1) EXCEPT !.sc = Drop(@, g.s)], [e |-> "gdone", id |-> g.id, v |-> d.v])

Callback(m, name, kind) == Await(IF kind = 2 THEN Push(m, [k |-> "run", i |-> -1]) ELSE m, [e |-> name])

\* One silent step, if there is one
RECURSIVE Settle(_)
Settle(m) ==
  LET t == Top(m) IN
  CASE m.mode # "go" -> m
    [] t.k = "drain" ->
         LET ent == m.sc[t.s].ent IN
         IF ent = <<>> THEN Settle(Drained(m)) ELSE m
    [] t.k = "unw" ->
         IF t.left # <<>> THEN m
         ELSE IF "s" \in DOMAIN t THEN Settle(Land(Pop(m)))
         ELSE IF t.hk # "-" THEN
              LET m1 == SetTop(m, [k |-> "unw", left |-> <<>>, hk |-> t.hk, s |-> t.hk]) IN
              IF t.hk = "" THEN Settle(m1) ELSE Await(Drain(m1, t.hk, "unw"), [e |-> "unwind", s |-> t.hk])
         ELSE LET s == UnwScope(m)  m1 == SetTop(m, [k |-> "unw", left |-> <<>>, s |-> s]) IN
              IF s = "" THEN Settle(m1) ELSE Settle(Drain(m1, s, "unw"))
    [] t.k = "term" /\ ~t.said -> Settle([SetTop(m, [t EXCEPT !.said = TRUE]) EXCEPT !.told = @ \cup {TopCtx(m).ex}])
    [] t.k = "term" ->
         IF m.ctrlc /\ m.ccb # 0 THEN Callback([m EXCEPT !.ctrlc = FALSE], "ctrlcb", m.ccb)
         ELSE IF m.tcb # 0 THEN Callback([m EXCEPT !.tcb = 0], "termcb", m.tcb)
         ELSE [m EXCEPT !.mode = "ending", !.xhow = "code", !.xv = 1]
    [] t.k = "exit" -> [m EXCEPT !.mode = "ending", !.xhow = "code", !.xv = 0]
    [] OTHER -> m

\* ---------------------------------------------------------------- user calls
\* the user program is running (and not the library in the middle of something)
Running(m) ==
  LET t == Top(m) IN
  \/ t.k \in {"base", "run"}
  \/ t.k = "guard" /\ t.ph = "body"
  \/ t.k = "try" /\ t.ph \in {"body", "catch"}
  \/ t.k = "fin" /\ t.ph = "in"

Overlap(m, off, size) == \E b \in m.blk : b[2] < off + size /\ off < b[2] + b[3]

InUse(m, s) == {m.sc[s].ent[j].x : j \in DOMAIN m.sc[s].ent}      \* handles of what is registered
NewScope == [ent |-> <<>>, prot |-> FALSE, ar |-> {}]    \* ar: blocks of its arena
AddScope(m, s) == [m EXCEPT !.sc = (s :> NewScope) @@ @]

LibPanic(m) == Throw([m EXCEPT !.pend = ""], [n |-> "panic", msg |-> Open, file |-> Open, line |-> -1, fn |-> ""])

ScopeEvents == {"defer", "malloc", "args", "amalloc", "cancel", "fire", "clean", "del"}

User(m, e) ==
  CASE e.e \in ScopeEvents /\ e.s \notin DOMAIN m.sc -> Bad(m, "no such scope")
    [] e.e = "rinit" ->        \* the thread's scope comes to be
         IF HasT(m) THEN Bad(m, "rinit") ELSE
         [AddScope(Armed(m), "T") EXCEPT !.cs[CtxIx(m)].home = TRUE]
    [] e.e = "new" ->
         IF e.s \in DOMAIN m.sc THEN Bad(m, "new") ELSE AddScope(m, e.s)
    [] e.e = "defer" ->
         IF m.pend = "defer" THEN (IF e.idx = -1 THEN [m EXCEPT !.pend = ""] ELSE Bad(m, "defer after failure"))
         ELSE IF e.idx < 0 \/ e.idx \in InUse(m, e.s) THEN Bad(m, "defer index")
         ELSE [m EXCEPT !.sc[e.s].ent = Append(@, [t |-> "run", i |-> e.i, x |-> e.idx])]
    [] e.e \in {"malloc", "args"} ->
         IF e.zok = 0 THEN Bad(m, "not zeroed")
         ELSE IF e.size < e.want THEN Bad(m, "short block")
         ELSE IF e.idx < 0 \/ e.idx \in InUse(m, e.s) THEN Bad(m, "block index")
         ELSE IF Overlap(m, e.off, e.want) THEN Bad(m, "overlap")
         ELSE [m EXCEPT !.sc[e.s].ent = Append(@, [t |-> "mem", i |-> e.i, x |-> e.idx]),
                        !.sc[e.s].prot = @ \/ e.e = "malloc",
                        !.blk = @ \cup {<<e.i, e.off, e.want>>}]
    [] e.e = "amalloc" ->      \* of the arena the scope has: usable until the scope has run its defers
         IF e.zok = 0 THEN Bad(m, "not zeroed")
         ELSE IF e.size < e.want THEN Bad(m, "short block")
         ELSE IF Overlap(m, e.off, e.want) THEN Bad(m, "overlap")
         ELSE [m EXCEPT !.sc[e.s].ar = @ \cup {e.i}, !.blk = @ \cup {<<e.i, e.off, e.want>>}]
    [] e.e = "own" ->          \* the program's own, until it gives it back
         IF e.zok = 0 THEN Bad(m, "not zeroed")
         ELSE IF e.size < e.want THEN Bad(m, "short block")
         ELSE IF Overlap(m, e.off, e.want) THEN Bad(m, "overlap")
         ELSE [m EXCEPT !.blk = @ \cup {<<e.i, e.off, e.want>>}]
    [] e.e = "resize" ->
         LET rest == {b \in m.blk : b[1] # e.i} IN
         IF e.kept = 0 THEN Bad(m, "contents lost")
         ELSE IF e.size < e.want THEN Bad(m, "short block")
         ELSE IF Overlap([m EXCEPT !.blk = rest], e.off, e.want) THEN Bad(m, "overlap")
         ELSE [m EXCEPT !.blk = rest \cup {<<e.i, e.off, e.want>>}]
    [] e.e = "giveback" ->
         IF ~ \E b \in m.blk : b[1] = e.i THEN Bad(m, "script")
         ELSE IF e.ok # 1 THEN Bad(m, "block damaged")
         ELSE [m EXCEPT !.blk = {b \in @ : b[1] # e.i}]
    [] e.e = "look" ->
         IF ~ \E b \in m.blk : b[1] = e.i THEN Bad(m, "script")
         ELSE IF e.ok # 1 THEN Bad(m, "block damaged") ELSE m
    [] e.e \in {"cancel", "fire"} ->
         LET ent == m.sc[e.s].ent  P == {j \in DOMAIN ent : ent[j].i = e.i /\ ent[j].x = e.idx} IN
         IF P = {} THEN Bad(m, "script")
         ELSE LET p == CHOOSE p \in P : TRUE
                  m1 == [m EXCEPT !.sc[e.s].ent = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))]
              IN IF e.e = "cancel" THEN
                   (IF ent[p].t = "mem" THEN [m1 EXCEPT !.blk = {b \in @ : b[1] # e.i}] ELSE m1)
                 ELSE Push(m1, [k |-> "aw1", t |-> ent[p].t, i |-> e.i])
    [] e.e = "clean" -> Drain(m, e.s, "clean")
    [] e.e = "del" -> IF m.hk.s = e.s THEN Bad(m, "script") ELSE Drain(m, e.s, "del")
    [] e.e = "throw" -> Throw(m, [n |-> e.n, msg |-> e.msg, file |-> e.file, line |-> e.line, fn |-> e.fn])
    [] e.e = "sig" ->
         IF e.num \notin DOMAIN m.own /\ (~m.armed \/ e.num \notin Usual) THEN
           (IF e.num = Harmless THEN Await(m, [e |-> "nosig"])
            ELSE [m EXCEPT !.mode = "ending", !.xhow = "signal", !.xv = e.num])
         ELSE Throw([m EXCEPT !.ctrlc = @ \/ e.num = 2],
                    [n |-> IF e.num \in DOMAIN m.own THEN m.own[e.num] ELSE e.n, msg |-> "", file |-> "unknown", line |-> 0, fn |-> ""])
    [] e.e = "named" -> LET m1 == IF m.armed THEN m ELSE Arm(m) IN [m1 EXCEPT !.own = (e.num :> e.n) @@ @]
    [] e.e = "sigblk" ->       \* signals are blocked only while unwinding
         IF \E j \in 1..Len(m.cs) : m.cs[j].k \in {"unw", "term"} THEN m ELSE Bad(m, "signal blocked")
    [] e.e = "rethrow" ->
         LET t == Top(m) IN
         IF t.k \in {"try", "fin"} /\ t.ex # NoEx THEN Throw(m, t.ex) ELSE Bad(m, "script")
    [] e.e = "prot" -> [m EXCEPT !.cs[CtxIx(m)].prot = Append(@, [p |-> e.p, v |-> e.v])]
    [] e.e = "pset" ->
         LET i == CtxIx(m)  q == m.cs[i].prot IN
         [m EXCEPT !.cs[i].prot = [j \in DOMAIN q |-> IF q[j].p = e.p THEN [p |-> e.p, v |-> e.v] ELSE q[j]]]
    [] e.e = "unprot" ->       \* what was protected after it goes too
         LET i == CtxIx(m)  q == m.cs[i].prot
             C == {j \in DOMAIN q : q[j].p = e.p}
         IN IF C = {} THEN Bad(m, "script")
            ELSE [m EXCEPT !.cs[i].prot = SubSeq(q, 1, (CHOOSE j \in C : TRUE) - 1)]
    [] e.e = "caught" ->
         LET i == CtxIx(m)  f == m.cs[i]  r == f.ex # NoEx /\ (e.n = f.ex.n \/ (e.n = f.ex.msg)) IN
         IF e.r # (IF r THEN 1 ELSE 0) THEN Bad(m, "caught")
         ELSE IF r THEN [m EXCEPT !.cs[i].st = 2] ELSE m
    [] e.e = "recov" ->
         LET i == CtxIx(m)  f == TopGuard(m)
             cur == Text(f.ex)
             r == f.ex # NoEx /\ (e.n = cur \/ (cur = Open /\ e.self = 1))
         IN IF e.r # (IF r THEN 1 ELSE 0) THEN Bad(m, "recover")
            ELSE IF r THEN [m EXCEPT !.cs[i].st = 2] ELSE m
    [] e.e = "smsg" -> IF Same(Text(m.terr), e.v) THEN m ELSE Bad(m, "scope message")
    [] e.e = "scaught" ->
         LET i == CtxIx(m)  cur == Text(m.terr)
             r == m.terr # NoEx /\ (e.n = cur \/ (cur = Open /\ e.self = 1))
         IN IF e.r # (IF r THEN 1 ELSE 0) THEN Bad(m, "scope caught")
            ELSE IF r THEN [m EXCEPT !.cs[i].st = 2] ELSE m
    [] e.e = "msg" -> IF Same(Text(TopCtx(m).ex), e.v) THEN m ELSE Bad(m, "message")
    [] e.e = "gmsg" -> IF Same(Text(TopGuard(m).ex), e.v) THEN m ELSE Bad(m, "guard message")
    [] e.e = "unc" -> IF e.v = (IF Unwinding(m) THEN 1 ELSE 0) THEN m ELSE Bad(m, "uncaught flag")
    [] e.e = "arm" -> [Arm(m) EXCEPT !.armed = (e.v = 1)]
    [] e.e = "reset" -> [m EXCEPT !.ctrlc = FALSE]
    [] e.e = "cbs" -> [m EXCEPT !.tcb = e.t, !.ccb = e.c]
    [] e.e = "hook" -> IF e.s # "" /\ e.s \notin DOMAIN m.sc THEN Bad(m, "script") ELSE [m EXCEPT !.hk = [s |-> e.s, f |-> e.f]]
    [] e.e = "try" -> Push(Armed(m), Ctx("try", e.id, e.cl, e.fin = 1, ""))
    [] e.e = "tbody" ->
         LET t == Top(m) IN
         IF t.k = "try" /\ t.ph = "body" /\ t.id = e.id THEN ToFinally(m) ELSE Bad(m, "try body")
    [] e.e = "cend" ->
         LET t == Top(m) IN
         IF t.k = "try" /\ t.ph = "catch" /\ t.id = e.id THEN NextClause(m, t.ci + 1) ELSE Bad(m, "catch end")
    [] e.e = "fend" ->
         LET t == Top(m) IN
         IF t.k = "fin" /\ t.id = e.id THEN EndTry(Pop(m), t.id, t.st, t.ex) ELSE Bad(m, "finally end")
    [] e.e = "ginit" -> Armed(m)      \* a guard is being entered
    [] e.e = "guard" ->
         Push(AddScope(Armed(m), e.s), Ctx("guard", e.id, <<>>, FALSE, e.s))
    [] e.e = "gend" ->       \* end of the section, or break
         LET t == Top(m) IN
         IF t.k = "guard" /\ t.ph = "body" /\ t.id = e.id
         THEN Drain(SetTop(m, [t EXCEPT !.ph = "end"]), t.s, "gend") ELSE Bad(m, "guard end")
    [] e.e = "gret" ->
         LET t == Top(m) IN
         IF t.k = "guard" /\ t.ph = "body" /\ t.id = e.id
         THEN Push(SetTop(m, [t EXCEPT !.ph = "end"]), [k |-> "drain", s |-> t.s, why |-> "gret", v |-> e.v])
         ELSE Bad(m, "guard return")
    [] e.e = "ret" ->
         LET t == Top(m) IN
         IF t.k = "run" /\ t.i = e.i THEN Pop(m) ELSE Bad(m, "return")
    [] e.e = "afail" ->
         IF e.op = "defer" THEN [m EXCEPT !.pend = "defer"] ELSE LibPanic(m)
    [] e.e = "end" ->
         IF Len(m.cs) # 1 THEN Bad(m, "end")
         ELSE IF HasT(m) THEN Drain(Push(m, [k |-> "exit"]), "T", "exit") ELSE Push(m, [k |-> "exit"])
    [] OTHER -> Bad(m, "unexpected event")

\* ------------------------------------------------------------ library answers
\* the last entry of the scope being drained is taken out, then run
TakeLast(m, t, i, kind) ==
  LET ent == m.sc[t.s].ent  x == ent[Len(ent)] IN
  IF x.i # i \/ x.t # kind THEN Bad(m, "not the last defer")
  ELSE [m EXCEPT !.sc[t.s].ent = SubSeq(@, 1, Len(@) - 1)]

Release(m, e) ==
  IF ~ \E b \in m.blk : b[1] = e.i THEN Bad(m, "released twice")
  ELSE IF e.ok # 1 THEN Bad(m, "block damaged")
  ELSE [m EXCEPT !.blk = {b \in @ : b[1] # e.i}]

SameEx(x, e) == x.n = e.err /\ Same(x.file, e.file) /\ (x.line = -1 \/ x.line = e.line)
                /\ Same(Text(x), e.msg)

Lib(m, e) ==
  LET t == Top(m) IN
  CASE t.k = "aw" -> (IF e.e = t.want.e /\ \A x \in DOMAIN t.want : e[x] = t.want[x]
                      THEN Pop(m) ELSE Bad(m, "expected other: " \o t.want.e))
    [] t.k = "aw1" ->
         (IF t.t = "run" /\ e.e = "run" /\ e.i = t.i THEN SetTop(m, [k |-> "run", i |-> t.i])
          ELSE IF t.t = "mem" /\ e.e = "free" /\ e.i = t.i THEN Release(Pop(m), e)
          ELSE Bad(m, "fired another"))
    [] t.k = "drain" ->
         (IF e.e = "run" THEN LET m1 == TakeLast(m, t, e.i, "run") IN
                              IF m1.mode = "bad" THEN m1 ELSE Push(m1, [k |-> "run", i |-> e.i])
          ELSE IF e.e = "free" THEN LET m1 == TakeLast(m, t, e.i, "mem") IN
                              IF m1.mode = "bad" THEN m1 ELSE Release(m1, e)
          ELSE Bad(m, "defers left"))
    [] t.k = "unw" ->
         (IF e.e = "pfree" /\ e.v = t.left[Len(t.left)].v /\ e.p = t.left[Len(t.left)].p
          THEN SetTop(m, [t EXCEPT !.left = SubSeq(@, 1, Len(@) - 1)])
          ELSE Bad(m, "protected pointer"))
    [] t.k = "try" /\ t.ph = "acatch" ->
         (IF e.e # "catch" \/ e.id # t.id \/ e.ci # t.ci THEN Bad(m, "other handler")
          ELSE IF ~SameEx(t.ex, e) THEN Bad(m, "exception identity")
          ELSE SetTop(m, [t EXCEPT !.ph = "catch"]))
    [] t.k = "fin" /\ t.ph = "aw" ->
         (IF e.e # "fin" \/ e.id # t.id THEN Bad(m, "no finally")
          ELSE IF e.err # t.ex.n THEN Bad(m, "exception identity")
          ELSE SetTop(m, [t EXCEPT !.ph = "in"]))
    [] OTHER -> Bad(m, "unexpected")

\* standard error names the exceptions that came to the end of the process, and where they were thrown
Within(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
Reported(m, says) == \A x \in m.told : /\ Text(x) \in {"", Open} \/ Within(says, Text(x))
                                       /\ x.fn = "" \/ Within(says, x.fn)

Exit(m, e) ==
  IF e.how # m.xhow \/ e.v # m.xv THEN Bad(m, "end of process")
  ELSE IF e.bad # 0 \/ e.smash # 0 THEN Bad(m, "memory misused")
  ELSE IF m.xhow = "code" /\ m.xv = 0 /\ DOMAIN m.sc \subseteq {"T"} /\ e.live # Cardinality(m.blk) THEN Bad(m, "memory not released")
  ELSE IF "says" \in DOMAIN e /\ ~Reported(m, e.says) THEN Bad(m, "end not explained")
  ELSE [m EXCEPT !.mode = "over"]

Do(m, e) ==
  IF m.mode = "over" THEN Bad(m, "after the end")
  ELSE IF m.mode = "ending" THEN (IF e.e = "exit" THEN Exit(m, e) ELSE Bad(m, "process goes on"))
  ELSE IF e.e = "exit" THEN Bad(m, "process ended")
  ELSE IF Running(m) THEN
         (IF m.pend # "" /\ e.e # "defer" THEN Bad(m, "pending failure") ELSE Settle(User(m, e)))
  ELSE Settle(Lib(m, e))
=============================================================================
