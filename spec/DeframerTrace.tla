---------------------------- MODULE DeframerTrace ----------------------------
(* Validates recorded runs of the real deframer: every recorded call must be  *)
(* explained by the corresponding action of Deframer with the same outcome.    *)
EXTENDS Deframer, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, st, ok
vars == <<run, l, st, ok>>

Res(e) == CASE e.ev = "new"  -> [st |-> InitSt(e.str), out |-> [res |-> "ok", got |-> 0, fr |-> <<>>, desync |-> FALSE, pend |-> FALSE]]
            [] e.ev = "read" -> ReadRes(st, e.n)
            [] e.ev = "err"  -> ErrRes(st, "io")
            [] e.ev = "pop"  -> PopRes(st, e.n)

Init == run \in 1..Len(Runs) /\ l = 1 /\ st = InitSt(<<>>) /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == Res(e) IN
           /\ st' = r.st
           /\ ok' = (r.out = e.out)
           /\ IF r.out = e.out THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> r.out, got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
