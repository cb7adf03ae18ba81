------------------------------ MODULE WireTrace ------------------------------
(* Recorded parses and queries of real messages against the grammar.           *)
EXTENDS WireQ, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, ok
vars == <<run, l, ok>>
Res(e) == CASE e.ev = "hs" -> HsRes(e)
            [] e.ev = "q" -> [q |-> QRes(e.b, e.v)]
            [] e.ev = "ecdh" -> [q |-> EcdhParams(e.b)]
            [] e.ev = "binder" -> [b |-> SetBinder(e.b, e.nb)]
Init == run \in 1..Len(Runs) /\ l = 1 /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == Res(e) IN
           /\ ok' = (r = e.out)
           /\ IF r = e.out THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
