--------------------------------- MODULE Args ---------------------------------
(***************************************************************************)
(* Argument lists of c-raii: made from a format and values, read by         *)
(* position, owned by a scope from the first reading with get_args on (or   *)
(* from the start, when passed to a spawned thread), and released with it.  *)
(*                                                                          *)
(* Values are sequences of four 16-bit limbs, lowest first.  Scopes: "t" of *)
(* the main thread, "w" of the thread started last, "u" and "v" made by     *)
(* unique_init, "p" of the threads spawned.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Zero == <<0, 0, 0, 0>>
\* what a value of format letter c is read back as
Read(c, v) == CASE c \in {117, 105} -> <<v[1], v[2], 0, 0>>     \* u i: 32 bits
                [] c = 99 -> <<v[1] % 256, 0, 0, 0>>            \* c: a character
                [] OTHER -> v

Scopes == {"t", "w", "u", "v", "p"}
NoList == [fmt |-> <<>>, v |-> <<>>, ctx |-> "n", bound |-> FALSE, parts |-> {0, 1}, rel |-> {}]
\* m.list: lists made; m.stk: what each scope releases at its end, the first of it last;
\* m.cur: the thread running; m.mode: "run", or releasing a scope (or a list)
Start == [list |-> <<>>, stk |-> [s \in Scopes |-> <<>>], cur |-> "t", mode |-> "run", what |-> "", spawned |-> FALSE]

Live(m, l) == l + 1 \in DOMAIN m.list /\ m.list[l + 1].rel = {}
L(m, l) == m.list[l + 1]
Scope(m, s) == IF s = "t" THEN m.cur ELSE s
Push(m, s, it) == [m EXCEPT !.stk[s] = <<it>> \o @]

\* ---------------------------------------------------------------- operations
Make(m, l, ctx, fmt, v, parts) ==
  LET o == IF ctx = "n" THEN "n" ELSE Scope(m, ctx)
      x == [NoList EXCEPT !.fmt = fmt, !.v = v, !.ctx = o, !.parts = parts, !.bound = (ctx = "p")]
      m2 == [m EXCEPT !.list = Append(@, x)]
  IN IF ctx = "p" THEN Push(m2, "p", <<"list", l>>) ELSE m2
Value(m, l, i) == LET x == L(m, l) IN
                  IF i >= 0 /\ i < Len(x.fmt) THEN Read(x.fmt[i + 1], x.v[i + 1]) ELSE Zero
\* reading with get_args has the list owned by a scope: the one given, the list's, or the thread's
Owner(m, l, sc) == IF sc # "n" THEN Scope(m, sc) ELSE IF L(m, l).ctx # "n" THEN L(m, l).ctx ELSE m.cur
Get(m, l, sc) == IF L(m, l).bound THEN m
                 ELSE Push([m EXCEPT !.list[l + 1].bound = TRUE], Owner(m, l, sc), <<"list", l>>)
Begin(m, s, mode) == [m EXCEPT !.mode = mode, !.what = s]
\* one of the two blocks of a list is released
Release(m, l, part) ==
  LET m2 == [m EXCEPT !.list[l + 1].rel = @ \cup {part}] IN
  IF m.mode = "drain" /\ m2.list[l + 1].rel = L(m, l).parts THEN [m2 EXCEPT !.stk[m.what] = Tail(@)] ELSE m2
Top(m) == IF m.stk[m.what] = <<>> THEN <<"none", 0>> ELSE m.stk[m.what][1]
\* the blocks of lists nobody released
RECURSIVE Blocks(_)
Blocks(q) == IF q = <<>> THEN 0
             ELSE (IF Head(q).rel # {} THEN 0 ELSE IF Head(q).parts = {1} THEN 1 ELSE 2) + Blocks(Tail(q))

\* ------------------------------- an event: why it is wrong ("" if it is not)
Wrong(m, e) ==
  CASE e.e = "mk" -> IF m.mode # "run" \/ e.l # Len(m.list) THEN "order"
                     ELSE IF e.n # Len(e.fmt) \/ e.ok # 1 THEN "list" ELSE ""
    [] e.e \in {"get", "in"} ->
         IF m.mode # "run" THEN "order" ELSE IF ~Live(m, e.l) THEN "script"
         ELSE IF e.r # Value(m, e.l, e.i) THEN "value"
         ELSE IF (e.i < 0 \/ e.i >= Len(L(m, e.l).fmt)) /\ e.z # 1 THEN "not nothing" ELSE ""
    [] e.e = "reg" -> IF m.mode = "run" THEN "" ELSE "order"
    [] e.e = "end" -> IF m.mode = "run" THEN "" ELSE "order"
    [] e.e = "ended" -> IF m.mode = "drain" /\ m.stk[m.what] = <<>> THEN "" ELSE "not all released"
    [] e.e = "probe" -> IF m.mode = "drain" /\ Top(m) = <<"probe", e.k>> THEN "" ELSE "released out of order"
    [] e.e = "free" ->
         IF e.l + 1 \notin DOMAIN m.list THEN "script"
         ELSE IF e.part \notin L(m, e.l).parts \ L(m, e.l).rel THEN "released twice"
         ELSE IF m.mode = "afree" /\ m.what = e.l THEN ""
         ELSE IF m.mode = "drain" /\ Top(m) = <<"list", e.l>> THEN "" ELSE "released out of order"
    [] e.e = "afree" -> IF m.mode = "run" /\ Live(m, e.l) /\ ~L(m, e.l).bound THEN "" ELSE "script"
    [] e.e = "afreed" -> IF m.mode = "afree" /\ L(m, m.what).rel = L(m, m.what).parts THEN "" ELSE "not all released"
    [] e.e = "in_thread" -> IF m.mode = "run" /\ m.cur = "t" /\ e.same = 1 THEN "" ELSE "argument"
    [] e.e = "leave" -> IF m.mode = "run" /\ m.cur = "w" THEN "" ELSE "order"
    [] e.e = "joined" -> IF m.mode = "drain" /\ m.what = "w" /\ m.stk["w"] = <<>> /\ e.ok = 1 THEN "" ELSE "thread"
    [] e.e = "exit" -> IF m.mode # "drain" \/ m.what # "t" \/ m.cur # "t" \/ m.stk["t"] # <<>> THEN "not all released"
                       ELSE IF e.how # "code" \/ e.v # 0 THEN "process ended"
                       ELSE IF e.bad # 0 \/ e.smash # 0 THEN "memory misused"
                       ELSE IF e.live # Blocks(m.list) THEN "memory not released" ELSE ""
    [] OTHER -> "unknown"

Next(m, e) ==
  CASE e.e = "mk" -> Make(m, e.l, e.ctx, e.fmt, e.v, {e.parts[i] : i \in DOMAIN e.parts})
    [] e.e = "get" -> Get(m, e.l, e.sc)
    [] e.e = "reg" -> Push(m, Scope(m, e.sc), <<"probe", e.k>>)
    [] e.e = "end" -> Begin(m, Scope(m, e.sc), "drain")
    [] e.e = "ended" -> [m EXCEPT !.mode = "run"]
    [] e.e = "probe" -> [m EXCEPT !.stk[m.what] = Tail(@)]
    [] e.e = "free" -> Release(m, e.l, e.part)
    [] e.e = "afree" -> Begin(m, e.l, "afree")
    [] e.e = "afreed" -> [m EXCEPT !.mode = "run"]
    [] e.e = "in_thread" -> [m EXCEPT !.cur = "w"]
    [] e.e = "leave" -> Begin(m, "w", "drain")
    [] e.e = "joined" -> [m EXCEPT !.mode = "run", !.cur = "t"]
    [] e.e = "exit" -> [m EXCEPT !.mode = "over"]
    [] OTHER -> m
=============================================================================
