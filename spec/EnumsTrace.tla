----------------------------- MODULE EnumsTrace ------------------------------
EXTENDS Enums, TLC, Json, IOUtils, FiniteSets
Runs == ndJsonDeserialize(IOEnv.TRACE)
(* the tables themselves are well formed, and every enumeration is covered *)
ASSUME \A n \in DOMAIN EnumTable : LET t == EnumTable[n] IN
          /\ \A k \in 1..(Len(t) - 1) : t[k][1] < t[k + 1][1]
          /\ Cardinality({t[k][2] : k \in 1..Len(t)}) = Len(t)
VARIABLES run, l, ok
vars == <<run, l, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               r == EnumRes(e) IN
           /\ ok' = (r = e.out)
           /\ IF r = e.out THEN TRUE
              ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l,
                     expected |-> [enum |-> e.enum, missing |-> {r.named[k] : k \in 1..Len(r.named)} \ {e.out.named[k] : k \in 1..Len(e.out.named)}],
                     got |-> {e.out.named[k] : k \in 1..Len(e.out.named)} \ {r.named[k] : k \in 1..Len(r.named)}]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
=============================================================================
