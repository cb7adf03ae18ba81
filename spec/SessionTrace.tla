---------------------------- MODULE SessionTrace ----------------------------
(* A recorded session is accepted iff every answer of the leader, and the
   follower's state after it, is the one the model gives. *)
EXTENDS Session, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, s, ok
vars == <<run, l, s, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ s = Start(Runs[run][1]) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == IF l = 1 THEN Is(s, OK) ELSE Act(s, e)
               good == Match(r.l, e.out.l) /\ FMatch(r.s.F, e.out.f) IN
           /\ ok' = good
           /\ s' = r.s
           /\ IF good THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> [l |-> r.l, f |-> r.s.F], got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
