----------------------------- MODULE LiveTrace ------------------------------
(* A recorded session is accepted iff after each event everybody is where the
   model says, and has what the model says. *)
EXTENDS Live, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, s, ok
vars == <<run, l, s, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ s = Start(Runs[run][1]) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               t == IF l = 1 THEN s ELSE Act(s, e, e.out)
               good == Match(t, e, e.out) IN
           /\ ok' = good
           /\ s' = t
           /\ IF good THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> t, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
