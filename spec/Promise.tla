------------------------------- MODULE Promise -------------------------------
(***************************************************************************)
(* The algorithm behind a future, at the grain of memory accesses: the     *)
(* creator writes the argument and starts the thread; the thread reads it, *)
(* writes its result under the promise's lock and raises the done flag;    *)
(* whoever gets it waits for the flag, reads the result, joins the thread  *)
(* and releases the promise.  A getter is the creator, or another thread   *)
(* it starts after.  Sw and Sr are the memory orders with which the flag   *)
(* is raised and read.                                                     *)
(*   Race free with release/acquire, and with stronger orders; Promise_bad *)
(* (relaxed) is refuted by TLC, which shows the order to be needed.        *)
(*   It refines Future: each step of a thread is a step of it or none.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,          \* futures
          Sw, Sr,     \* orders of the done flag
          Other       \* the futures that another thread gets
VARIABLES pc, done, lock, val, got, freed, a
vars == <<pc, done, lock, val, got, freed, a>>
A == INSTANCE Atomics
K == 1..N
\* threads: 0 the creator, k in K that of future k, N + k the getter of future k in Other
Getter(k) == IF k \in Other THEN N + k ELSE 0
T == 0..(2 * N)

Go == "go"
Init == /\ pc = [t \in T |-> IF t = 0 THEN [at |-> "make", k |-> 1] ELSE [at |-> "none", k |-> 0]]
        /\ done = [k \in K |-> FALSE] /\ lock = [k \in K |-> FALSE]
        /\ val = [k \in K |-> 0] /\ got = [k \in K |-> 0] /\ freed = [k \in K |-> FALSE]
        /\ a = [mode |-> Go, why |-> "", th |-> [t \in {0} |-> A!Thread(A!Clock, 0)],
                rel |-> [o \in {"d", "l"} \X K |-> A!Clock], dat |-> [d \in {} |-> 0]]
Plain(x, t, d, w) == IF x.mode = "bad" THEN x ELSE A!Data(x, [e |-> IF w THEN "dw" ELSE "dr", t |-> t, d |-> d, v |-> 0])
Fork(x, t, c) == A!Tick([x EXCEPT !.th = (c :> A!Thread(x.th[t].c, c)) @@ @], t)
At(t, s, k) == pc[t] = [at |-> s, k |-> k]
To(t, s, k) == pc' = [pc EXCEPT ![t] = [at |-> s, k |-> k]]

\* ---- the creator
Make(k) == /\ At(0, "make", k)
           /\ a' = Plain(Plain(a, 0, <<"arg", k>>, TRUE), 0, <<"val", k>>, TRUE)        \* the argument, the result's place cleared
           /\ To(0, "start", k) /\ UNCHANGED <<done, lock, val, got, freed>>
Start(k) == /\ At(0, "start", k) /\ a.mode = Go
            /\ a' = Fork(a, 0, k)
            /\ pc' = [pc EXCEPT ![k] = [at |-> "arg", k |-> k],
                                ![0] = IF k \in Other THEN [at |-> "hand", k |-> k]
                                       ELSE IF k < N THEN [at |-> "make", k |-> k + 1] ELSE [at |-> "get", k |-> 0]]
            /\ UNCHANGED <<done, lock, val, got, freed>>
Hand(k) == /\ At(0, "hand", k) /\ a.mode = Go
           /\ a' = Fork(a, 0, N + k)
           /\ pc' = [pc EXCEPT ![N + k] = [at |-> "wait", k |-> k],
                               ![0] = IF k < N THEN [at |-> "make", k |-> k + 1] ELSE [at |-> "get", k |-> 0]]
           /\ UNCHANGED <<done, lock, val, got, freed>>
Choose(k) == /\ At(0, "get", 0) /\ k \notin Other /\ got[k] = 0
             /\ To(0, "wait", k) /\ UNCHANGED <<done, lock, val, got, freed, a>>
\* ---- a thread
Arg(k) == /\ At(k, "arg", k) /\ a.mode = Go
          /\ a' = Plain(a, k, <<"arg", k>>, FALSE)
          /\ To(k, "lock", k) /\ UNCHANGED <<done, lock, val, got, freed>>
Lock(k) == /\ At(k, "lock", k) /\ ~lock[k]
           /\ lock' = [lock EXCEPT ![k] = TRUE]
           /\ a' = A!WriteAt(A!ReadAt(a, k, <<"l", k>>, 2), k, <<"l", k>>, 2, TRUE)
           /\ To(k, "set", k) /\ UNCHANGED <<done, val, got, freed>>
Set(k) == /\ At(k, "set", k)
          /\ val' = [val EXCEPT ![k] = 10 + k]
          /\ a' = Plain(a, k, <<"val", k>>, TRUE)
          /\ To(k, "unlock", k) /\ UNCHANGED <<done, lock, got, freed>>
Unlock(k) == /\ At(k, "unlock", k) /\ a.mode = Go
             /\ lock' = [lock EXCEPT ![k] = FALSE]
             /\ a' = A!WriteAt(a, k, <<"l", k>>, 3, FALSE)
             /\ To(k, "done", k) /\ UNCHANGED <<done, val, got, freed>>
Raise(k) == /\ At(k, "done", k)
            /\ done' = [done EXCEPT ![k] = TRUE]
            /\ a' = A!WriteAt(A!ReadAt(a, k, <<"d", k>>, Sw), k, <<"d", k>>, Sw, TRUE)
            /\ To(k, "end", k) /\ UNCHANGED <<lock, val, got, freed>>
\* ---- getting
Wait(t, k) == /\ At(t, "wait", k)
              /\ a' = A!ReadAt(a, t, <<"d", k>>, Sr)
              /\ IF done[k] THEN To(t, "read", k) ELSE UNCHANGED pc
              /\ UNCHANGED <<done, lock, val, got, freed>>
Read(t, k) == /\ At(t, "read", k)
              /\ got' = [got EXCEPT ![k] = val[k]]
              /\ a' = Plain(a, t, <<"val", k>>, FALSE)
              /\ To(t, "join", k) /\ UNCHANGED <<done, lock, val, freed>>
Joined(t, k) == /\ At(t, "join", k) /\ pc[k].at = "end" /\ a.mode = Go
                /\ a' = [a EXCEPT !.th[t].c = A!Join(@, a.th[k].c)]
                /\ To(t, "free", k) /\ UNCHANGED <<done, lock, val, got, freed>>
Free(t, k) == /\ At(t, "free", k)
              /\ freed' = [freed EXCEPT ![k] = TRUE]
              /\ a' = Plain(a, t, <<"val", k>>, TRUE)
              /\ pc' = [pc EXCEPT ![t] = IF t # 0 THEN [at |-> "end", k |-> k]
                                         ELSE IF \E j \in K \ Other : got[j] = 0 THEN [at |-> "get", k |-> 0] ELSE [at |-> "end", k |-> 0]]
              /\ UNCHANGED <<done, lock, val, got>>
Next == a.mode = Go /\
  \E k \in K : \/ Make(k) \/ Start(k) \/ Hand(k) \/ Choose(k)
               \/ Arg(k) \/ Lock(k) \/ Set(k) \/ Unlock(k) \/ Raise(k)
               \/ \E t \in {Getter(k)} : Wait(t, k) \/ Read(t, k) \/ Joined(t, k) \/ Free(t, k)
Fair == \A t \in T : WF_vars(\E k \in K : \/ (t = 0 /\ (Make(k) \/ Start(k) \/ Hand(k) \/ Choose(k)))
                                          \/ (t = k /\ (Arg(k) \/ Lock(k) \/ Set(k) \/ Unlock(k) \/ Raise(k)))
                                          \/ (t = Getter(k) /\ (Wait(t, k) \/ Read(t, k) \/ Joined(t, k) \/ Free(t, k))))
Spec == Init /\ [][Next]_vars /\ Fair

NoRace == a.mode # "bad"
Right == \A k \in K : got[k] \in {0, 10 + k}
\* nothing is released that a thread has yet to touch
Safe == \A k \in K : freed[k] => pc[k].at = "end" /\ got[k] # 0
AllGot == <>(\A k \in K : freed[k])
\* the clocks only tell of order: they need not be told apart beyond what has been compared
View == <<pc, done, lock, val, got, freed, a.mode, a.th, a.rel, a.dat>>

\* ---- refinement: what is seen of a future
st == [k \in K |-> IF pc[k].at = "none" THEN "none" ELSE IF done[k] THEN (IF got[k] # 0 THEN "got" ELSE "done") ELSE "runs"]
AInit == st = [k \in K |-> "none"]
ANext == \E k \in K : \/ st[k] = "none" /\ st' = [st EXCEPT ![k] = "runs"]
                      \/ st[k] = "runs" /\ st' = [st EXCEPT ![k] = "done"]
                      \/ st[k] = "done" /\ st' = [st EXCEPT ![k] = "got"] /\ got'[k] = 10 + k
Refines == AInit /\ [][ANext]_st
=============================================================================
