------------------------------ MODULE RaiiTrace ------------------------------
(* Are the recorded executions behaviours of Raii?  The file named by the    *)
(* environment has one execution a line; they are checked one after the      *)
(* other in one behaviour, a rejected one is printed and left.               *)
EXTENDS Raii, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, m
vars == <<t, l, m>>
Ev == Traces[t].ev
Init == t = 1 /\ l = 1 /\ m = Init0
Step == /\ t <= Len(Traces) /\ l <= Len(Ev)
        /\ LET m2 == Do(m, Ev[l]) IN
           IF m2.mode = "bad"
           THEN /\ PrintT(<<"REJECT", Traces[t].id, l, m2.why>>)
                /\ t' = t + 1 /\ l' = 1 /\ m' = Init0
           ELSE t' = t /\ l' = l + 1 /\ m' = m2
Done == /\ t <= Len(Traces) /\ l > Len(Ev)
        /\ IF m.mode = "over" THEN TRUE ELSE PrintT(<<"REJECT", Traces[t].id, l, "trace ends">>)
        /\ t' = t + 1 /\ l' = 1 /\ m' = Init0
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* What must hold in every state, whatever the events: the specification's own sanity
Sane == /\ m.mode \in {"go", "ending", "over"}
        /\ \A i \in 1..Len(m.cs) : m.cs[i].k = "guard" => m.cs[i].s \in DOMAIN m.sc
        /\ Cardinality(m.blk) > 60 \/ \A b, c \in m.blk : b = c \/ b[2] + b[3] <= c[2] \/ c[2] + c[3] <= b[2]
Accepted == PrintT(<<"CHECKED", Len(Traces), TLCGet("stats").distinct>>)
=============================================================================
