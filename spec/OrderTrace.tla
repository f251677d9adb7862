------------------------------ MODULE OrderTrace ------------------------------
(* Are the recorded executions behaviours of Order?  The file named by the    *)
(* environment has one execution a line; they are checked one after the      *)
(* other in one behaviour, a rejected one is printed and left.               *)
EXTENDS Order, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, m
vars == <<t, l, m>>
Ev == Traces[t].ev
Init == t = 1 /\ l = 1 /\ m = Init0
Step == /\ t <= Len(Traces) /\ l <= Len(Ev)
        /\ LET m2 == Do(m, Ev[l]) IN
           IF m2.mode = "bad"
           THEN /\ PrintT(<<"REJECT", Traces[t].id, l, m2.why>>)
                /\ t' = t + 1 /\ l' = 1 /\ m' = Init0
           ELSE t' = t /\ l' = l + 1 /\ m' = m2
Done == /\ t <= Len(Traces) /\ l > Len(Ev)
        /\ IF m.mode = "over" THEN TRUE ELSE PrintT(<<"REJECT", Traces[t].id, l, "trace ends">>)
        /\ t' = t + 1 /\ l' = 1 /\ m' = Init0
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CHECKED", Len(Traces), TLCGet("stats").distinct>>)
=============================================================================
