------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Several threads using c-raii.  Each is a Raii machine of its own; what  *)
(* they share is the address space and the end of the process.  A step of  *)
(* one thread leaves the machines of the others as they are: nothing that  *)
(* a thread does shows in another.                                         *)
(***************************************************************************)
EXTENDS Raii

TInit0 == [mode |-> "go", why |-> "", th |-> <<>>]
TBad(s, w) == [s EXCEPT !.mode = "bad", !.why = w]

\* blocks of different threads share no byte
Clash(s, e) == \E k \in DOMAIN s.th : k # e.t /\ Overlap(s.th[k], e.off, e.want)

EndsWith(m, e) == m.mode = "ending" /\ m.xhow = e.how /\ m.xv = e.v

TDo(s, e) ==
  CASE s.mode = "over" -> TBad(s, "after the end")
    [] e.e = "threads" -> [s EXCEPT !.th = [k \in 0..(e.n - 1) |-> Init0]]
    [] e.e = "exit" ->         \* with the main thread, or with one that has an exception nobody catches
         IF ~ \E k \in DOMAIN s.th : EndsWith(s.th[k], e) /\ (k = 0 \/ e.v # 0) THEN TBad(s, "process ended")
         ELSE IF e.bad # 0 \/ e.smash # 0 THEN TBad(s, "memory misused")
         ELSE IF e.how = "code" /\ e.v = 0 /\ \E k \in DOMAIN s.th : k # 0 /\ s.th[k].mode # "over" THEN TBad(s, "threads left")
         ELSE IF e.how = "code" /\ e.v = 0 /\ e.live # 0 /\ \A k \in DOMAIN s.th : DOMAIN s.th[k].sc \subseteq {"T"}
              THEN TBad(s, "memory not released")
         ELSE [s EXCEPT !.mode = "over"]
    [] "t" \notin DOMAIN e -> TBad(s, "unexpected event")
    [] e.t \notin DOMAIN s.th -> TBad(s, "no such thread")
    [] e.e = "tover" ->        \* the thread's function has returned, its scope ended
         IF e.t # 0 /\ s.th[e.t].mode = "ending" /\ s.th[e.t].xhow = "code" /\ s.th[e.t].xv = 0
         THEN [s EXCEPT !.th[e.t].mode = "over"] ELSE TBad(s, "thread ended")
    [] e.e = "malloc" /\ Clash(s, e) -> TBad(s, "overlap")
    [] OTHER ->
         LET m2 == Do(s.th[e.t], e) IN
         IF m2.mode = "bad" THEN TBad(s, m2.why) ELSE [s EXCEPT !.th[e.t] = m2]
=============================================================================
