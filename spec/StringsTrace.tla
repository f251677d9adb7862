----------------------------- MODULE StringsTrace -----------------------------
(* Every recorded call answers as Strings says, leaves its inputs alone, and   *)
(* its results stay until the scope they belong to ends.                       *)
EXTENDS Strings, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Ev == Traces[t].ev
Init == t = 1 /\ l = 1 /\ st = "calls"
Verdict(e) ==
  CASE e.e = "held" -> IF st # "calls" THEN "held" ELSE IF e.ok = 1 THEN "" ELSE "a result changed"
    [] e.e = "exit" -> IF st # "held" \/ e.how # "code" \/ e.v # 0 THEN "process ended"
                       ELSE IF e.bad # 0 \/ e.smash # 0 THEN "memory misused"
                       ELSE IF e.live # 0 THEN "memory not released"
                       ELSE ""
    [] OTHER -> IF st # "calls" THEN "order"
                ELSE IF "same" \in DOMAIN e /\ e.same # 1 THEN "input changed"
                ELSE IF Right(e) THEN "" ELSE e.e
After(e) == CASE e.e = "held" -> "held" [] e.e = "exit" -> "over" [] OTHER -> "calls"
Step == /\ t <= Len(Traces) /\ l <= Len(Ev)
        /\ LET w == Verdict(Ev[l]) IN
           IF w # "" THEN PrintT(<<"REJECT", Traces[t].id, l, w>>) /\ t' = t + 1 /\ l' = 1 /\ st' = "calls"
           ELSE t' = t /\ l' = l + 1 /\ st' = After(Ev[l])
Done == /\ t <= Len(Traces) /\ l > Len(Ev)
        /\ IF st = "over" THEN TRUE ELSE PrintT(<<"REJECT", Traces[t].id, l, "trace ends">>)
        /\ t' = t + 1 /\ l' = 1 /\ st' = "calls"
Spec == Init /\ [][Step \/ Done]_vars
Accepted == PrintT(<<"CHECKED", Len(Traces), TLCGet("stats").distinct>>)
=============================================================================
