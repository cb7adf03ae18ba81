----------------------------- MODULE DeapTrace ------------------------------
EXTENDS Deap, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, s, ok
vars == <<run, l, s, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ s = Start /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == IF l = 1 THEN [s |-> s, l |-> "ok", f |-> "ok"] ELSE Act(s, Runs[run][1], e)
               good == l = 1 \/ Match(r, e) IN
           /\ ok' = good
           /\ s' = r.s
           /\ IF good THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> [l |-> r.l, f |-> r.f, sl |-> Sees(r.s, "L"), sf |-> Sees(r.s, "F")], got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
