------------------------------ MODULE ThreadsTrace ------------------------------
(* Are the recorded executions behaviours of Threads?  The file named by the    *)
(* environment has one execution a line; they are checked one after the      *)
(* other in one behaviour, a rejected one is printed and left.               *)
EXTENDS Threads, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, m
vars == <<t, l, m>>
Ev == Traces[t].ev
Init == t = 1 /\ l = 1 /\ m = TInit0
Step == /\ t <= Len(Traces) /\ l <= Len(Ev)
        /\ LET m2 == TDo(m, Ev[l]) IN
           IF m2.mode = "bad"
           THEN /\ PrintT(<<"REJECT", Traces[t].id, l, m2.why>>)
                /\ t' = t + 1 /\ l' = 1 /\ m' = TInit0
           ELSE t' = t /\ l' = l + 1 /\ m' = m2
Done == /\ t <= Len(Traces) /\ l > Len(Ev)
        /\ IF m.mode = "over" THEN TRUE ELSE PrintT(<<"REJECT", Traces[t].id, l, "trace ends">>)
        /\ t' = t + 1 /\ l' = 1 /\ m' = TInit0
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* What must hold in every state, whatever the events: the specification's own sanity
Sane == /\ m.mode \in {"go", "over"}
        /\ \A k \in DOMAIN m.th : \A i \in 1..Len(m.th[k].cs) :
              m.th[k].cs[i].k = "guard" => m.th[k].cs[i].s \in DOMAIN m.th[k].sc
        /\ \A j, k \in DOMAIN m.th : \A b \in m.th[j].blk, c \in m.th[k].blk :
              (j = k /\ b = c) \/ b[2] + b[3] <= c[2] \/ c[2] + c[3] <= b[2]
Accepted == PrintT(<<"CHECKED", Len(Traces), TLCGet("stats").distinct>>)
=============================================================================
