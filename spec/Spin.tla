-------------------------------- MODULE Spin --------------------------------
(* The spin lock as an algorithm: test and set until it was clear, reading     *)
(* while it is set; clear to unlock.  Its steps are events of Atomics, which   *)
(* says that it is a lock (of the calls, no return without its turn) and that  *)
(* data it protects has no race.  TasOrd and ClearOrd are its memory orders.   *)
EXTENDS Atomics
CONSTANTS N, Rounds, TasOrd, ReadOrd, ClearOrd
VARIABLES m, pc, flag, left
vars == <<m, pc, flag, left>>
T == 1..N
Init == /\ m = [Init0 EXCEPT !.cf = {[v |-> ("l" :> <<0>>), r |-> [t \in {} |-> No]]}, !.rel = ("l" :> Clock),
                             !.th = [t \in 0..N |-> Thread(Clock, t)]]
        /\ pc = [t \in T |-> "out"] /\ flag = 0 /\ left = [t \in T |-> Rounds]
Ev(e) == m' = Do(m, e)
CallEv(t, op) == [e |-> "call", t |-> t, o |-> "l", op |-> op, a |-> <<>>, b |-> <<>>, sc |-> FALSE]
AtEv(t, k, ord) == [e |-> "at", t |-> t, o |-> "l", k |-> k, ord |-> ord]
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Lock(t) == Go(t, "out", "tas") /\ left[t] > 0 /\ Ev(CallEv(t, "lock")) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED flag
Tas(t) == /\ pc[t] = "tas" /\ pc' = [pc EXCEPT ![t] = IF flag = 0 THEN "locked" ELSE "spin"]
          /\ flag' = 1 /\ Ev(AtEv(t, "u", TasOrd)) /\ UNCHANGED left
Spinning(t) == /\ pc[t] = "spin" /\ pc' = [pc EXCEPT ![t] = IF flag = 1 THEN "spin" ELSE "tas"]
               /\ Ev(AtEv(t, "r", ReadOrd)) /\ UNCHANGED <<flag, left>>
Locked(t) == Go(t, "locked", "in") /\ Ev([e |-> "ret", t |-> t, r |-> <<>>]) /\ UNCHANGED <<flag, left>>
Read(t) == Go(t, "in", "read") /\ Ev([e |-> "dr", t |-> t, d |-> "d", v |-> IF "d" \in DOMAIN m.dat THEN m.dat["d"].v ELSE 0]) /\ UNCHANGED <<flag, left>>
Write(t) == Go(t, "read", "wrote") /\ Ev([e |-> "dw", t |-> t, d |-> "d", v |-> t]) /\ UNCHANGED <<flag, left>>
Unlock(t) == Go(t, "wrote", "clear") /\ Ev(CallEv(t, "unlock")) /\ UNCHANGED <<flag, left>>
Clear(t) == Go(t, "clear", "cleared") /\ flag' = 0 /\ Ev(AtEv(t, "w", ClearOrd)) /\ UNCHANGED left
Cleared(t) == Go(t, "cleared", "out") /\ Ev([e |-> "ret", t |-> t, r |-> <<>>]) /\ UNCHANGED <<flag, left>>
Step(t) == Lock(t) \/ Tas(t) \/ Spinning(t) \/ Locked(t) \/ Read(t) \/ Write(t) \/ Unlock(t) \/ Clear(t) \/ Cleared(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))
\* it is a lock, and what it protects has no race
Right == m.mode # "bad"
Inside == {"locked", "in", "read", "wrote", "clear"}
Exclusive == Cardinality({t \in T : pc[t] \in Inside}) <= 1
\* nobody waits for ever, as long as each goes in only so often
AllIn == <>[](\A t \in T : pc[t] = "out" /\ left[t] = 0)
=============================================================================
