----------------------------- MODULE JoinerTrace -----------------------------
EXTENDS Joiner, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, st, ok
vars == <<run, l, st, ok>>
Res(e) == CASE e.ev = "new"  -> [st |-> InitSt(e.ms), out |-> [res |-> "ok", count |-> 0, fr |-> <<>>, empty |-> TRUE]]
            [] e.ev = "take" -> TakeRes(st, e.n, e.v)
            [] e.ev = "want" -> WantRes(st, e.ct)
Init == run \in 1..Len(Runs) /\ l = 1 /\ st = InitSt(<<>>) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == Res(e) IN
           /\ st' = r.st
           /\ ok' = (r.out = e.out)
           /\ IF r.out = e.out THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r.out, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
