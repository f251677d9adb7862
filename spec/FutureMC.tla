------------------------------- MODULE FutureMC -------------------------------
(* All interleavings of all small programs: a main thread and N others, which  *)
(* may get each other's results.  Any answer a library could give is tried,    *)
(* the invariants say, by the history h alone, that only right ones are taken. *)
EXTENDS Future
CONSTANTS N, MainOps, ChildOps, Scopes, Fails, Guards
VARIABLES m, bud, h
vars == <<m, bud, h>>
K == 1..N
T == 0..N
Vals == {ToString(k) : k \in K}
Exs == {[n |-> "x" \o ToString(k), m |-> "m"] : k \in K}
\* h: how each thread's function was left, who has ended, what was told
Init == /\ m = Init0
        /\ bud = [t \in T |-> IF t = 0 THEN MainOps ELSE ChildOps]
        /\ h = [left |-> [k \in T |-> "no"], tend |-> {}, told |-> {}, regs |-> 0, runs |-> <<>>, ing |-> [t \in T |-> 0], must |-> [k \in T |-> FALSE],
                wrong |-> FALSE, calls |-> 0,
                hit |-> [t \in T |-> ""], fails |-> 0]
Ss == IF Scopes THEN {"s"} ELSE {}
Handled(t) == {[e |-> "tryend", t |-> t]}
Ops(t) == {[e |-> "ret", t |-> t, v |-> ToString(t)], [e |-> "try", t |-> t], [e |-> "reg", t |-> t, d |-> t],
           [e |-> "throw", t |-> t, n |-> "x" \o ToString(t), m |-> "m"]}
  \cup (IF Guards THEN {[e |-> "guard", t |-> t, d |-> 100 + t]}
                           \cup (IF \E s \in DOMAIN m.sc : m.sc[s].own = t THEN {} ELSE {[e |-> "lost", t |-> t]}) ELSE {})
  \cup {[e |-> x, t |-> t, k |-> k] : x \in {"get", "done", "wait"}, k \in {k \in K : k # t /\ k \in DOMAIN m.th /\ m.th[k].own = ""
                                                                                       /\ ~m.th[k].taken /\ m.th[k].by # t /\ \A u \in DOMAIN m.th : m.th[u].call.k # k}}
  \cup {[e |-> x, t |-> t, k |-> k] : x \in {"get", "done", "wait"}, k \in {k \in K : k \in DOMAIN m.th /\ m.th[k].by = t /\ m.th[k].own = ""
                                                                                       /\ ~m.th[k].taken /\ \A u \in DOMAIN m.th : m.th[u].call.k # k}}
  \cup {[e |-> "async", t |-> t, k |-> k, a |-> "a"] : k \in {k \in K : k \notin DOMAIN m.th /\ \A j \in K : j < k => j \in DOMAIN m.th}}
  \cup (IF t = 0 THEN {[e |-> "scope", t |-> t, s |-> s] : s \in Ss \ DOMAIN m.sc}
          \cup {[e |-> "spawn", t |-> t, s |-> s, k |-> k, a |-> "a"] : s \in DOMAIN m.sc, k \in {k \in K : k \notin DOMAIN m.th /\ \A j \in K : j < k => j \in DOMAIN m.th}}
          \cup {[e |-> x, t |-> t, s |-> s] : x \in {"sync", "then", "fin"}, s \in DOMAIN m.sc}
          \cup {[e |-> "result", t |-> t, k |-> k] : k \in {k \in DOMAIN m.th : m.th[k].own # ""}}
        ELSE {})
Answers(t) ==
  {[e |-> "start", t |-> t, a |-> a] : a \in {"a", "b"}}
  \cup {[e |-> x, t |-> t, k |-> k] : x \in {"asyncd", "spawned", "waited"}, k \in K}
  \cup {[e |-> x, t |-> t, k |-> k, v |-> v] : x \in {"got", "resultd"}, k \in K, v \in Vals}
  \cup {[e |-> "doned", t |-> t, k |-> k, r |-> r] : k \in K, r \in {0, 1}}
  \cup {[e |-> "caught", t |-> t, n |-> n, m |-> "m"] : n \in {"x" \o ToString(k) : k \in T} \cup {"logic_error"} \cup (IF Fails > 0 \/ Guards THEN {"panic", "future_error"} ELSE {})}
  \cup {[e |-> "synced", t |-> t], [e |-> "thend", t |-> t], [e |-> "tend", t |-> t]}
  \cup {[e |-> "find", t |-> t, r |-> r] : r \in {0, 1}}
  \cup {[e |-> "thencall", t |-> t, i |-> i - 1, v |-> v, acc |-> a] : i \in K, v \in Vals, a \in 100..(99 + N)}
  \cup {[e |-> "run", t |-> t, d |-> d] : d \in T \cup (IF Guards THEN {100 + k : k \in T} ELSE {})}
  \cup (IF Guards THEN {[e |-> "gdone", t |-> t]} ELSE {})
  \cup {[e |-> "scoped", t |-> t]}
  \cup (IF h.fails < Fails THEN {[e |-> x, t |-> t] : x \in {"nomem", "refused"}} ELSE {})

\* ---- history, from the events alone
Hist(e) ==
  LET t == e.t IN
  CASE e.e = "ret" -> [h EXCEPT !.left[t] = "ok"]
    [] e.e = "tend" -> [h EXCEPT !.tend = @ \cup {t}, !.left[t] = IF @ = "no" THEN "ex" ELSE @,
                                 !.wrong = @ \/ t \in h.tend \/ h.ing[t] # 0]
    [] e.e = "run" -> [h EXCEPT !.runs = Append(@, e.d), !.left[t] = IF @ = "no" THEN "ex" ELSE @,
                                !.wrong = @ \/ t \in h.tend \/ e.d \notin {t, 100 + t} \/ (e.d > 99 /\ h.ing[t] = 0),
                                !.ing[t] = IF e.d > 99 THEN @ - 1 ELSE @]
    [] e.e = "guard" -> [h EXCEPT !.regs = @ + 1, !.ing[t] = @ + 1]
    [] e.e = "reg" -> [h EXCEPT !.regs = @ + 1]
    [] e.e = "got" -> [h EXCEPT !.told = @ \cup {e.k}, !.wrong = @ \/ h.left[e.k] # "ok" \/ e.k \notin h.tend \/ e.v # ToString(e.k)]
    [] e.e = "resultd" -> [h EXCEPT !.wrong = @ \/ e.k \notin h.tend \/ (h.left[e.k] = "ok" /\ e.v # ToString(e.k))]
    [] e.e = "waited" -> [h EXCEPT !.told = @ \cup {e.k}]
    [] e.e = "doned" -> [h EXCEPT !.told = IF e.r = 1 THEN @ \cup {e.k} ELSE @,
                                  !.wrong = @ \/ (e.r = 0 /\ h.must[t])]
    [] e.e = "done" -> [h EXCEPT !.must[t] = e.k \in h.told]
    [] e.e = "synced" -> [h EXCEPT !.wrong = @ \/ \E k \in DOMAIN m.th : m.th[k].own = "s" /\ (k \notin h.tend)]
    [] e.e = "then" -> [h EXCEPT !.calls = 0]
    [] e.e = "thencall" -> [h EXCEPT !.calls = @ + 1, !.wrong = @ \/ e.acc # 100 + h.calls]
    [] e.e \in {"nomem", "refused"} -> [h EXCEPT !.fails = @ + 1, !.hit[t] = e.e]
    [] e.e = "lost" -> [h EXCEPT !.hit[t] = "nomem"]
    [] e.e = "start" -> [h EXCEPT !.wrong = @ \/ t \in h.tend]
    [] e.e = "caught" /\ e.n \in {"panic", "future_error"} ->    \* it was told so, or a thread that ended with it was
         LET why == IF e.n = "panic" THEN "nomem" ELSE "refused" IN
         [h EXCEPT !.wrong = @ \/ ~(h.hit[t] = why \/ \E k \in h.tend : h.left[k] = "ex" /\ h.hit[k] = why), !.hit[t] = ""]
    [] e.e \in {"asyncd", "spawned"} -> [h EXCEPT !.wrong = @ \/ h.hit[t] # ""]
    [] e.e = "caught" -> \* own exception, or one of a thread that has ended with it
         [h EXCEPT !.wrong = @ \/ (e.n # "logic_error" /\ e.n # "x" \o ToString(t) /\ ~\E k \in h.tend : h.left[k] = "ex")]
    [] OTHER -> h

Step(e, op) == /\ op => bud[e.t] > 0
               /\ LET x == Do(m, e) IN x.mode # "bad" /\ m' = x
               /\ bud' = IF op THEN [bud EXCEPT ![e.t] = @ - 1] ELSE bud
               /\ h' = Hist(e)
\* a try is ended if nothing else is to be done
Close(t) == {[e |-> "tryend", t |-> t]}
Leave(t) == {[e |-> "gleave", t |-> t]}
Next == \E t \in T : t \in DOMAIN m.th /\ (\/ (\E e \in Ops(t) : Step(e, e.e # "ret"))
                                            \/ (\E e \in Answers(t) : Step(e, FALSE))
                                            \/ (LET g == m.th[t].gs IN m.th[t].tries > (IF g = <<>> THEN 0 ELSE g[Len(g)].at) /\ \E e \in Close(t) : Step(e, FALSE))
                                            \/ (LET g == m.th[t].gs IN g # <<>> /\ m.th[t].tries = g[Len(g)].at /\ \E e \in Leave(t) : Step(e, FALSE)))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == ~h.wrong
\* told done only when the function is left, or has ended in a way its thread has yet to show
Told == \A k \in h.told : Left(m, k)
\* each defer runs once, and before the thread has ended
Defers == /\ \A t \in DOMAIN m.th : m.th[t].st = "ended" => m.th[t].pr = <<>>
          /\ Len(h.runs) <= h.regs
\* nobody waits for ever: whoever waits, waits for a thread that has yet to end, or can return
Waits == \A t \in DOMAIN m.th : m.th[t].call.c \in {"get", "wait"} =>
            \/ ~Ended(m, m.th[t].call.k)
            \/ \E e \in Answers(t) : Do(m, e).mode # "bad"
            \/ Thrown(m, t).mode # "bad"
\* what was not made is in no scope, and what is has been made
Made == \A s \in DOMAIN m.sc : \A i \in DOMAIN m.sc[s].hs : m.sc[s].hs[i] \in DOMAIN m.th /\ m.th[m.sc[s].hs[i]].own = s
Over == \A k \in DOMAIN m.th : h.left[k] = "ok" => m.th[k].out.ok
=============================================================================
