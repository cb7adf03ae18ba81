---- MODULE TranscriptTrace ----
EXTENDS Transcript, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, ok, st
vars == <<run, l, ok, st>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ ok = TRUE /\ st = <<>>
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               n == IF l = 1 THEN Start(e) ELSE Do(st, e)
               g == n.out = e.out IN
           /\ ok' = g /\ st' = n.st
           /\ IF g THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> n.out, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
====
