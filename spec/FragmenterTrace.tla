--------------------------- MODULE FragmenterTrace ---------------------------
EXTENDS Fragmenter, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, st, ok
vars == <<run, l, st, ok>>
Res(e) == CASE e.ev = "new" -> NewRes(st, e.n)
            [] e.ev = "set" -> SetRes(st, e.n)
            [] e.ev = "frag" -> FragRes(st, e.n, e.dig)
            [] e.ev = "borrow" -> BorrowRes(st, e.n, e.dig)
Init == run \in 1..Len(Runs) /\ l = 1 /\ st = InitSt /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == Res(e) IN
           /\ st' = r.st
           /\ ok' = (r.out = e.out)
           /\ IF r.out = e.out THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r.out, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
