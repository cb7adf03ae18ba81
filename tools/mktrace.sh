#!/bin/sh
# mktrace.sh MODULE : writes spec/<MODULE>Trace.{tla,cfg}, a stateless trace
# specification for a module defining Ok(e) and Exp(e).
cd "$(dirname "$0")/../spec" || exit 1
cat > $1Trace.tla <<X
---- MODULE $1Trace ----
EXTENDS $1, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, ok
vars == <<run, l, ok>>
Init == run \in 1..Len(Runs) /\ l = 1 /\ ok = TRUE
Step == /\ l <= Len(Runs[run]) /\ ok
        /\ LET e == Runs[run][l]
               g == Ok(e) IN
           /\ ok' = g
           /\ IF g THEN TRUE ELSE PrintT("REJ " \o ToJson([run |-> run, l |-> l, expected |-> Exp(e), got |-> e.out]))
        /\ l' = l + 1 /\ UNCHANGED run
Stop == (l > Len(Runs[run]) \/ ~ok) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
====
X
echo "SPECIFICATION Spec" > $1Trace.cfg
