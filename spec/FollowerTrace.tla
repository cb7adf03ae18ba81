---------------------------- MODULE FollowerTrace ----------------------------
(* A recorded run of the follower is accepted iff after each message it is in
   the state the model gives, and its transcript is the model's. *)
EXTENDS Follower, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, f, ok
vars == <<run, l, f, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ f = FStart(Runs[run][1]) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == IF l = 1 THEN [f |-> f, l |-> OK] ELSE FAct(f, e)
               good == Match(r.l, e.out.l) /\ FMatch(r.f.F, e.out.f) IN
           /\ ok' = good
           /\ f' = r.f
           /\ IF good THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> [l |-> r.l, f |-> r.f.F], got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
