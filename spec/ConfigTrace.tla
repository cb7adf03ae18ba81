---- MODULE ConfigTrace ----
EXTENDS Config, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, ok
vars == <<run, l, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               g == CfgOk(e) IN
           /\ ok' = g
           /\ IF g THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> CfgExp(e), got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
====
