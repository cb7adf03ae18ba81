---------------------------- MODULE ClientTrace ----------------------------
(* A recorded connection is accepted iff every observation is the one the
   model makes after the same steps. *)
EXTENDS Client, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, c, ok
vars == <<run, l, c, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ c = New(Runs[run][1]) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == IF l = 1 THEN [c |-> c, out |-> NewOut(e)] ELSE Do(c, e) IN
           /\ ok' = (e.out = r.out)
           /\ c' = r.c
           /\ IF e.out = r.out THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r.out, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
