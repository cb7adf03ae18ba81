----------------------------- MODULE ReaderTrace -----------------------------
EXTENDS Reader, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, st, ok
vars == <<run, l, st, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ st = InitSt(Runs[run][1].buf) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == ReaderRes(st, e.op, e.n) IN
           /\ ok' = (r.out = e.out)
           /\ IF r.out = e.out THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r.out, got |-> e.out]))
           /\ st' = r.st
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
