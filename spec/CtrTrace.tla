---- MODULE CtrTrace ----
EXTENDS Ctr, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, s, ok
vars == <<run, l, s, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ s = Start(Runs[run][1]) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == Act(s, e)
               g == Good(r, e) IN
           /\ ok' = g
           /\ s' = r.s
           /\ IF g THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
====
