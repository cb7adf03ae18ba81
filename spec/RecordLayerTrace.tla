-------------------------- MODULE RecordLayerTrace --------------------------
(* A recorded run of the two record layers is accepted iff every answer of
   both is the one the model gives. *)
EXTENDS RecordLayer, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, c, ok
vars == <<run, l, c, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ c = New(Runs[run][1]) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == IF l = 1 THEN [c |-> c, out |-> Two(OK)] ELSE Do(c, e)
               good == Match(r.out[1], e.out[1]) /\ Match(r.out[2], e.out[2]) IN
           /\ ok' = good
           /\ c' = r.c
           /\ IF good THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r.out, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
