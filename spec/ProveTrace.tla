----------------------------- MODULE ProveTrace ------------------------------
EXTENDS Prove, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, up, ok
vars == <<run, l, up, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ up = TRUE /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET o == Runs[run][1]
               e == Runs[run][l]
               good == IF l = 1 THEN "differ" \notin DOMAIN e.out /\ Len(e.ps) = Of(e, "s") /\ Len(e.pr) = Of(e, "r")
                       ELSE up /\ Right(o, e) IN
           /\ ok' = good
           /\ up' = IF l = 1 THEN TRUE ELSE up /\ GoesOn(o, e)
           /\ IF good THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> IF l = 1 THEN [fault |-> "open"] ELSE Want(o, e), got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
