------------------------------- MODULE RaiiMC -------------------------------
(***************************************************************************)
(* Raii by itself: all programs over an alphabet of calls, up to so many   *)
(* calls, with the answers Raii demands.  The history h is judged by the   *)
(* properties as a user states them, in terms of what can be seen, not in  *)
(* terms of the contexts and scopes Raii keeps: so that accepting an       *)
(* execution as a behaviour of Raii does mean that the properties hold.    *)
(* With Show,  each history that has come to its end is written out, to be *)
(* run by the library itself (lib/fam_ctl.py).                             *)
(***************************************************************************)
EXTENDS Raii, Json
CONSTANTS Kinds,       \* calls programs are made of
          Clauses,     \* what catch clauses a try may have
          MaxU,        \* calls in a program, not counting the ends of blocks
          Depth,       \* contexts within each other
          Show
VARIABLES m, h, n, df   \* df: something was thrown by a defer or callback
vars == <<m, h, n, df>>

Ks(x) == x \in Kinds
\* what Clauses may be
OneName == {<<"my_error">>}
NameAny == {<<"my_error">>, <<"*">>}
Plenty == {<<>>, <<"my_error">>, <<"*">>, <<"my_error", "*">>, <<"out_of_range", "my_error">>, <<"?">>, <<"?", "my_error">>, <<"!">>}
Tests == {<<"?">>, <<"?", "my_error">>}
Some3 == {<<"my_error">>, <<"out_of_range", "*">>, <<"?", "my_error">>, <<"!">>}
L == Len(h) + 1                       \* label of what is made now
InDrain(s) == \E j \in DOMAIN m.cs : m.cs[j].k = "drain" /\ m.cs[j].s = s
GuardScope == IF Guards(m) = {} THEN {} ELSE {TopGuard(m).s} \cap DOMAIN m.sc
Usable == (DOMAIN m.sc \cap {"T", "U1"}) \cup GuardScope
Deep == Cardinality({i \in DOMAIN m.cs : m.cs[i].k \in {"try", "guard", "run", "fin"}})

InUnwind == \E j \in DOMAIN m.cs : m.cs[j].k \in {"unw", "term"}
Entries(s) == {m.sc[s].ent[j] : j \in DOMAIN m.sc[s].ent}

Names == {"my_error", "out_of_range"}
Msg == "boom1"

\* ends of the block that is run
Close ==
  LET t == Top(m) IN
  CASE t.k = "base" -> IF m.hk.s # "" THEN {[e |-> "hook", s |-> "", f |-> 0]} ELSE IF "U1" \in DOMAIN m.sc THEN {[e |-> "del", s |-> "U1"]} ELSE {[e |-> "end"]}
    [] t.k = "run" -> IF t.i = -1 THEN {} ELSE {[e |-> "ret", i |-> t.i]}
    [] t.k = "try" /\ t.ph = "body" -> {[e |-> "tbody", id |-> t.id]}
    [] t.k = "try" -> {[e |-> "cend", id |-> t.id]}
    [] t.k = "fin" -> {[e |-> "fend", id |-> t.id]}
    [] t.k = "guard" -> {[e |-> "gend", id |-> t.id]} \cup IF Ks("gret") THEN {[e |-> "gret", id |-> t.id, v |-> 5]} ELSE {}

Thrown(x) == [e |-> "throw", n |-> x, msg |-> "", file |-> "ctl.c", line |-> L, fn |-> "f"]

\* calls of the program, as far as they make sense where it is
Calls ==
  LET t == Top(m)
      tryblk == t.k = "try" /\ t.ph = "catch"
      untested == tryblk /\ t.cl[t.ci] = "?" /\ t.st = 1
  IN
  IF m.pend = "defer" THEN {[e |-> "defer", s |-> h[Len(h)].s, i |-> L, idx |-> -1]}
  ELSE IF t.k = "run" /\ t.i = -1 THEN {Thrown("my_error")}         \* callback that throws
  ELSE IF untested THEN
    (IF h[Len(h)].e = "catch" THEN {[e |-> "caught", n |-> x, r |-> r] : x \in Names \cup {Msg}, r \in {0, 1}} ELSE {})
  ELSE
  (IF Ks("rinit") /\ ~HasT(m) THEN {[e |-> "rinit"]} ELSE {}) \cup
  (IF Ks("new") /\ "U1" \notin DOMAIN m.sc THEN {[e |-> "new", s |-> "U1"]} ELSE {}) \cup
  (IF Ks("defer") THEN {[e |-> "defer", s |-> s, i |-> L, idx |-> L] : s \in Usable} ELSE {}) \cup
  (IF Ks("malloc") THEN {[e |-> "malloc", s |-> s, i |-> L, idx |-> L, off |-> 100 * L, size |-> 8, want |-> 8, zok |-> 1] : s \in Usable} ELSE {}) \cup
  (IF Ks("cancel") THEN UNION {{[e |-> "cancel", s |-> s, i |-> x.i, idx |-> x.x] : x \in {x \in Entries(s) : x.t = "run"}} : s \in Usable} ELSE {}) \cup
  (IF Ks("fire") THEN UNION {{[e |-> "fire", s |-> s, i |-> x.i, idx |-> x.x] : x \in Entries(s)} : s \in Usable} ELSE {}) \cup
  (IF Ks("clean") THEN {[e |-> "clean", s |-> s] : s \in {s \in Usable : ~InDrain(s)}} ELSE {}) \cup
  (IF Ks("hook") /\ "U1" \in DOMAIN m.sc /\ ~InDrain("U1") THEN {x \in {[e |-> "hook", s |-> "U1", f |-> 1], [e |-> "hook", s |-> "U1", f |-> 0], [e |-> "hook", s |-> "", f |-> 0]} :
                                               m.hk # [s |-> x.s, f |-> x.f]} ELSE {}) \cup
  (IF Ks("hookT") /\ HasT(m) THEN {x \in {[e |-> "hook", s |-> "T", f |-> 1], [e |-> "hook", s |-> "T", f |-> 0], [e |-> "hook", s |-> "", f |-> 0]} :
                                               m.hk # [s |-> x.s, f |-> x.f]} ELSE {}) \cup
  (IF Ks("del") /\ m.hk.s # "U1" /\ "U1" \in DOMAIN m.sc /\ ~InDrain("U1") THEN {[e |-> "del", s |-> "U1"]} ELSE {}) \cup
  (IF Ks("throw") THEN {Thrown(x) : x \in Names} ELSE {}) \cup
  (IF Ks("panic") THEN {[Thrown("panic") EXCEPT !.msg = Msg]} ELSE {}) \cup
  (IF Ks("sig") THEN (IF InUnwind THEN {[e |-> "sigblk", n |-> "sig_fpe"]} ELSE {[e |-> "sig", n |-> "sig_fpe", num |-> 8, hw |-> 0]}) ELSE {}) \cup
  (IF Ks("arm") THEN {[e |-> "arm", v |-> v] : v \in {0, 1}} \cup {[e |-> "named", num |-> 8, n |-> "my_error"]} ELSE {}) \cup
  (IF Ks("cbs") THEN {[e |-> "cbs", t |-> x, c |-> 0] : x \in 0..2} ELSE {}) \cup
  (IF Ks("msg") /\ tryblk THEN {[e |-> "msg", v |-> Text(TopCtx(m).ex)]} ELSE {}) \cup
  (IF Ks("msg") THEN {[e |-> "unc", v |-> IF Unwinding(m) THEN 1 ELSE 0]} ELSE {}) \cup
  (IF Ks("rethrow") /\ (tryblk \/ (t.k = "fin" /\ t.ex # NoEx)) THEN {[e |-> "rethrow"]} ELSE {}) \cup
  (IF Ks("try") /\ Deep < Depth THEN {[e |-> "try", id |-> L, cl |-> c[1], fin |-> c[2]] : c \in {c \in Clauses \X {0, 1} : c[2] = 1 \/ \A j \in DOMAIN c[1] : c[1][j] # "!"}} ELSE {}) \cup
  (IF Ks("guard") /\ HasT(m) /\ Deep < Depth THEN {[e |-> "guard", id |-> L, s |-> "G" \o ToString(L)]} ELSE {}) \cup
  (IF Ks("recov") /\ t.k = "run" /\ TopCtx(m).k = "guard" THEN {[e |-> "recov", n |-> x, r |-> r, self |-> 0] : x \in Names \cup {Msg}, r \in {0, 1}} ELSE {}) \cup
  (IF Ks("prot") /\ t.k = "try" /\ t.ph = "body" THEN {[e |-> "prot", p |-> p, v |-> v, id |-> t.id] :
        p \in {p \in 1..2 : \A j \in DOMAIN t.prot : t.prot[j].p # p}, v \in {0, L}} ELSE {}) \cup
  (IF Ks("prot") /\ t.k = "try" /\ t.ph = "body" THEN {[e |-> "pset", p |-> t.prot[j].p, v |-> L, id |-> t.id] : j \in DOMAIN t.prot} ELSE {}) \cup
  (IF Ks("prot") /\ t.k = "try" /\ t.ph = "body" THEN {[e |-> "unprot", p |-> t.prot[j].p, id |-> t.id] : j \in DOMAIN t.prot} ELSE {}) \cup
  (IF Ks("afail") THEN {[e |-> "afail", op |-> o, s |-> s] : o \in {o \in {"malloc", "defer"} : Ks(o)}, s \in Usable} ELSE {})

\* what the library is to do now
Answer ==
  LET t == Top(m) IN
  CASE m.mode = "ending" -> [e |-> "exit", how |-> m.xhow, v |-> m.xv, live |-> 0, bad |-> 0, smash |-> 0, afails |-> 0]
    [] t.k = "aw" -> t.want
    [] t.k = "aw1" -> IF t.t = "run" THEN [e |-> "run", i |-> t.i] ELSE [e |-> "free", i |-> t.i, ok |-> 1, by |-> 0]
    [] t.k = "drain" -> LET q == m.sc[t.s].ent  x == q[Len(q)] IN
                        IF x.t = "run" THEN [e |-> "run", i |-> x.i] ELSE [e |-> "free", i |-> x.i, ok |-> 1, by |-> 0]
    [] t.k = "unw" -> LET x == t.left[Len(t.left)] IN [e |-> "pfree", p |-> x.p, v |-> x.v]
    [] t.k = "try" -> [e |-> "catch", id |-> t.id, ci |-> t.ci, err |-> t.ex.n, file |-> t.ex.file, line |-> t.ex.line, msg |-> Text(t.ex)]
    [] t.k = "fin" -> [e |-> "fin", id |-> t.id, err |-> t.ex.n]

Raises(e) == e.e \in {"throw", "rethrow", "sig"} \/ (e.e = "afail" /\ e.op = "malloc")
Take(e) ==
  /\ m' = Do(m, e)
  /\ h' = Append(h, e)
  /\ df' = (df \/ (Raises(e) /\ \E j \in DOMAIN m.cs : m.cs[j].k \in {"unw", "drain", "aw1", "term"}))

Init == m = Init0 /\ h = <<>> /\ n = 0 /\ df = FALSE
User1 ==
  /\ m.mode = "go" /\ Running(m)
  /\ \/ \E e \in Calls : (n < MaxU \/ e.e = "caught" \/ m.pend # "" \/ (Top(m).k = "run" /\ Top(m).i = -1)) /\ (e.e \in {"caught", "recov"} => Do(m, e).mode # "bad") /\ Take(e) /\ n' = n + 1
     \/ /\ m.pend = ""
        /\ ~(Top(m).k = "try" /\ Top(m).ph = "catch" /\ Top(m).cl[Top(m).ci] = "?" /\ Top(m).st = 1 /\ h[Len(h)].e = "catch")
        /\ \E e \in Close : Take(e) /\ n' = n
Lib1 ==
  /\ \/ m.mode = "ending"
     \/ m.mode = "go" /\ ~Running(m)
  /\ Take(Answer) /\ n' = n
  /\ m'.mode = "over" /\ Show => PrintT("BEH " \o ToJson(h'))
Next == User1 \/ Lib1
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------- properties of the history
\* each is about its last event; earlier ones were judged when they were the last
k == Len(h)
Last == h[k]
Is(x) == k > 0 /\ Last.e = x
Some(a, b, P(_)) == \E q \in a..b : P(h[q])
Gone(i, b) == \E q \in 1..b : h[q].e \in {"run", "free", "cancel"} /\ h[q].i = i
Made(e) == e.e \in {"defer", "malloc"} /\ e.idx >= 0
MadeAt(i) == CHOOSE q \in 1..k : Made(h[q]) /\ h[q].i = i
Fired == k > 1 /\ h[k - 1].e = "fire"
Over == m.mode = "over"
Code(v) == Over /\ Last.how = "code" /\ Last.v = v

\* no step leads nowhere, no answer is refused
NoBad == m.mode # "bad"

\* C01: the last one first, each at most once, and all by the end
Lifo == (Is("run") \/ Is("free")) /\ ~Fired =>
  LET r == MadeAt(Last.i) IN
  \A q \in (r + 1)..(k - 1) : Made(h[q]) /\ h[q].s = h[r].s => Gone(h[q].i, k - 1)
Once == (Is("run") \/ Is("free")) => ~Gone(Last.i, k - 1)
Kept(s) == s # "T" /\ s \in DOMAIN m.sc        \* never given up by the program
AllRun == /\ Code(0) => \A q \in 1..k : Made(h[q]) /\ ~Kept(h[q].s) => Gone(h[q].i, k)
          /\ Code(1) => \A q \in 1..k : Made(h[q]) /\ h[q].s = "T" => Gone(h[q].i, k)
\* C02: fired now; (a cancelled one does not run: Once)
FireNow == Fired /\ m.mode = "go" => (Is("run") \/ Is("free")) /\ Last.i = h[k - 1].i
\* C03: what is in use is not released: something was fired, or its scope is being emptied
ScopeOver(s, i, q) ==
  LET z == h[q] IN
  \/ z.e \in {"clean", "del"} /\ z.s = s
  \/ z.e = "end" /\ s = "T"
  \/ Raises(z)
  \/ z.e \in {"gend", "gret"} /\ s = "G" \o ToString(z.id)
KeptInUse == Is("free") /\ ~Fired =>
  LET r == MadeAt(Last.i) IN \E q \in 1..(k - 1) : ScopeOver(h[r].s, Last.i, q)
\* C04: the nearest try whose body it happened in, the first clause that fits
TryAt(id) == CHOOSE q \in 1..k : h[q].e = "try" /\ h[q].id = id
\* by itself, or with a try around it
LeftBody(id, b) == \E q \in TryAt(id)..b : h[q].e \in {"tbody", "catch", "tend", "fin"} /\ TryAt(h[q].id) <= TryAt(id)
Fits(c, x) == c \in {"*", "?", "!", x}
Nearest == Is("catch") =>
  LET o == TryAt(Last.id) IN
  /\ Fits(h[o].cl[Last.ci], Last.err)
  /\ \A c \in 1..(Last.ci - 1) : ~Fits(h[o].cl[c], Last.err) \/ h[o].cl[c] = "?"
  /\ ~df => \A j \in (o + 1)..(k - 1) : h[j].e = "try" =>
        LeftBody(h[j].id, k - 1) \/ ~ \E c \in DOMAIN h[j].cl : Fits(h[j].cl[c], Last.err)
\* and one handler only
OneHandler == Is("catch") => \A q \in 1..(k - 1) : h[q].e = "catch" /\ h[q].id = Last.id =>
     /\ h[TryAt(Last.id)].cl[h[q].ci] = "?" /\ q < k /\ h[q].ci < Last.ci
     /\ ~ \E c \in (q + 1)..(k - 1) : h[c].e = "caught" /\ h[c].r = 1
          /\ \A z \in (q + 1)..(c - 1) : h[z].e \notin {"try", "run", "guard"}
\* C05: once, and before anything else is
FinOnce == Is("fin") => ~ \E q \in 1..(k - 1) : h[q].e = "fin" /\ h[q].id = Last.id
FinRun == \A j \in 1..k : h[j].e = "try" /\ h[j].fin = 1 =>
  \/ \E q \in j..k : h[q].e = "fin" /\ h[q].id = h[j].id
  \/ \E c \in DOMAIN m.cs : m.cs[c].k \in {"try", "fin"} /\ m.cs[c].id = h[j].id
\* caught, recovered from, or another one came instead of it
Handled(q, b) == \E y \in (q + 1)..b :
  \/ h[y].e = "catch" /\ h[y].line = q
  \/ h[y].e = "recov" /\ h[y].r = 1
  \/ h[y].e = "fin" /\ "!" \in {h[TryAt(h[y].id)].cl[j] : j \in DOMAIN h[TryAt(h[y].id)].cl}
  \/ Raises(h[y])                   \* instead of it
\* C06: what was thrown is what is caught, and the latest
Identity == Is("catch") /\ Last.line > 0 =>
  LET q == Last.line IN
  /\ h[q].e = "throw" /\ h[q].n = Last.err /\ Last.msg = (IF h[q].msg # "" THEN h[q].msg ELSE h[q].n)
  /\ \A z \in (q + 1)..(k - 1) : h[z].e = "throw" =>
       Handled(z, k - 1)
\* C08: a signal is the exception it is named for, or else its usual one
NameOf(q) == LET X == {x \in 1..(q - 1) : h[x].e \in {"named", "arm"}} IN
  IF X = {} THEN "sig_fpe"
  ELSE LET x == CHOOSE x \in X : \A y \in X : y <= x IN IF h[x].e = "named" THEN h[x].n ELSE "sig_fpe"
BySignal == Is("catch") /\ Last.line = 0 => \E q \in 1..(k - 1) :
  h[q].e = "sig" /\ NameOf(q) = Last.err
SignalTold == (Is("catch") \/ Is("fin")) /\ h[k - 1].e = "sig" => Last.err = NameOf(k - 1)
\* C12: a failed call is not come back from
Failed == k > 1 /\ h[k - 1].e = "afail" /\ h[k - 1].op = "malloc" =>
  /\ Last.e \in {"catch", "fin", "run", "free", "pfree", "termcb", "exit"}
  /\ Is("exit") => Last.how = "code" /\ Last.v = 1
  /\ Is("catch") \/ Is("fin") => Last.err = "panic"
\* C07: failure is the end of those, and only those, nobody handles
Failure == Over /\ Last.how = "code" =>
  /\ Last.v = 0 => \E q \in 1..k : h[q].e = "end"
  /\ Last.v = 0 => \A q \in 1..k : h[q].e = "throw" => Handled(q, k)
  /\ Last.v = 1 => \E q \in 1..k : Raises(h[q])
  /\ Last.v = 1 /\ ~df => \A j \in 1..k : h[j].e = "try" /\ ~LeftBody(h[j].id, k) =>
        \A x \in m.told : \A c \in DOMAIN h[j].cl : ~Fits(h[j].cl[c], x.n)
\* C09: what is protected is released once, the last first, when its try is left by an exception
SamePlace(a, b) == a.id = b.id /\ a.p = b.p
Withdrawn(q, b) == \E y \in (q + 1)..b : h[y].e = "unprot" /\ h[y].id = h[q].id
Freed(v, b) == \E y \in 1..b : h[y].e = "pfree" /\ h[y].v = v
\* what is in the place protected by event q
Value(q, b) == LET X == {x \in q..b : h[x].e \in {"prot", "pset"} /\ SamePlace(h[x], h[q])}
               IN h[CHOOSE x \in X : \A y \in X : y <= x].v
Spared(q, b) == Value(q, b) = 0 \/ Freed(Value(q, b), b) \/ Withdrawn(q, b)
ProtLast == Is("pfree") =>
  /\ Last.v # 0
  /\ ~Freed(Last.v, k - 1)
  /\ \E q \in 1..(k - 1) :
       /\ h[q].e = "prot" /\ h[q].p = Last.p /\ Value(q, k - 1) = Last.v
       /\ ~ \E y \in (q + 1)..(k - 1) : h[y].e = "unprot" /\ SamePlace(h[y], h[q])
       /\ \A y \in (q + 1)..(k - 1) : h[y].e = "prot" /\ h[y].id = h[q].id => Spared(y, k - 1)
ProtAll == Is("catch") \/ (Is("fin") /\ Last.err # "") =>
  \A q \in 1..(k - 1) : h[q].e = "prot" /\ h[q].id = Last.id =>
     Spared(q, k - 1) \/ \E y \in (q + 1)..(k - 1) : h[y].e = "tbody" /\ h[y].id = Last.id
\* C27: the program's functions are told of what is thrown, once, and empty its scope before any handler is entered
HookAt(b) == LET X == {x \in 1..b : h[x].e = "hook"} IN IF X = {} THEN [s |-> "", f |-> 0] ELSE LET x == CHOOSE x \in X : \A y \in X : y <= x IN [s |-> h[x].s, f |-> h[x].f]
NoGuard == \A q \in 1..k : h[q].e # "guard"
Hooked ==
  /\ Is("setup") => /\ HookAt(k - 1).s # ""
                     /\ h[k - 1].e = "throw" => h[k - 1].n = Last.n /\ h[k - 1].msg = Last.v
                     /\ h[k - 1].e # "setup"
  /\ k > 1 /\ h[k - 1].e = "throw" /\ HookAt(k - 1).s # "" /\ NoGuard /\ ~df => Is("setup")
  /\ Is("unwind") => /\ HookAt(k - 1).f = 1
                      /\ \E q \in 1..(k - 1) : h[q].e = "setup" /\ \A z \in (q + 1)..(k - 1) : h[z].e = "pfree"
  /\ Is("catch") /\ Last.line > 0 => LET q == Last.line IN
        HookAt(q).f = 1 /\ ~df /\ NoGuard => /\ \E z \in (q + 1)..(k - 1) : h[z].e = "unwind"
                                               /\ \A d \in 1..q : Made(h[d]) /\ h[d].s = HookAt(q).s => Gone(h[d].i, k - 1)
\* C10: a guard is left with all its defers run, and before the handler of what was thrown in it
Empty(g, b) == \A q \in 1..b : Made(h[q]) /\ h[q].s = g => Gone(h[q].i, b)
GuardEmpty == /\ Is("gdone") => Empty("G" \o ToString(Last.id), k - 1)
              /\ Is("catch") => LET o == TryAt(Last.id) IN
                   \A j \in (o + 1)..(k - 1) : h[j].e = "guard" => Empty(h[j].s, k - 1)
\* C11: execution goes on behind a guard iff it came to its end, or the exception was recovered from
Recovered == Is("gdone") =>
  \/ \E q \in 1..(k - 1) : h[q].e \in {"gend", "gret"} /\ h[q].id = Last.id
  \/ \E q \in 1..(k - 1) : h[q].e = "recov" /\ h[q].r = 1
ByName == (Is("recov") \/ Is("caught")) =>
  LET hit == \E q \in 1..(k - 1) : h[q].e \in {"throw", "sig", "named"} /\ (h[q].n = Last.n \/ (h[q].e = "throw" /\ h[q].msg = Last.n)) IN
  Last.r = 1 => hit
=============================================================================
