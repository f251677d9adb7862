------------------------------ MODULE ArgsTrace ------------------------------
(* Recorded histories are behaviours of Args. *)
EXTENDS Args, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, m
vars == <<t, l, m>>
Ev == Traces[t].ev
Init == t = 1 /\ l = 1 /\ m = Start
Step == /\ t <= Len(Traces) /\ l <= Len(Ev)
        /\ LET w == Wrong(m, Ev[l]) IN
           IF w # "" THEN PrintT(<<"REJECT", Traces[t].id, l, w>>) /\ t' = t + 1 /\ l' = 1 /\ m' = Start
           ELSE t' = t /\ l' = l + 1 /\ m' = Next(m, Ev[l])
Done == /\ t <= Len(Traces) /\ l > Len(Ev)
        /\ IF m.mode = "over" THEN TRUE ELSE PrintT(<<"REJECT", Traces[t].id, l, "trace ends">>)
        /\ t' = t + 1 /\ l' = 1 /\ m' = Start
Spec == Init /\ [][Step \/ Done]_vars
Accepted == PrintT(<<"CHECKED", Len(Traces), TLCGet("stats").distinct>>)
=============================================================================
