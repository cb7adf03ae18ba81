------------------------------- MODULE PkiMC --------------------------------
(* Chain shapes with every single fault (and every pair of faults in the big    *)
(* configuration), times around the validity bounds, names and timestamps.      *)
EXTENDS Pki, TLC, Json
CONSTANTS Pairs, Part
W == 1000
Ee(by, iss) == [subj |-> 9, iss |-> iss, key |-> 9, by |-> by, good |-> TRUE, nb |-> 0, na |-> W, ca |-> "none", pl |-> 0 - 1,
                eku |-> "server", names |-> <<<<"a", "x", "test">>, <<"*", "y", "test">>>>, der |-> "ok"]
Ca(subj, key, iss, by) == [subj |-> subj, iss |-> iss, key |-> key, by |-> by, good |-> TRUE, nb |-> 0, na |-> W, ca |-> "yes",
                           pl |-> 0 - 1, eku |-> "none", names |-> <<>>, der |-> "ok"]
R1 == [subj |-> 1, key |-> 1]
R2 == [subj |-> 2, key |-> 2]
I3 == Ca(3, 3, 1, 1)
I4 == Ca(4, 4, 3, 3)
NoCt == [on |-> FALSE, logs |-> <<1>>, dl |-> W]
Base(ee, ints, roots) == [ev |-> "chain", ee |-> ee, ints |-> ints, roots |-> roots, name |-> <<"a", "x", "test">>, t |-> 500,
                          ct |-> NoCt, scts |-> <<>>]
Shapes == { Base(Ee(1, 1), <<>>, <<R1>>), Base(Ee(1, 1), <<>>, <<R2>>), Base(Ee(1, 1), <<>>, <<>>), Base(Ee(1, 1), <<>>, <<R2, R1>>),
            Base(Ee(3, 3), <<I3>>, <<R1>>), Base(Ee(3, 3), <<>>, <<R1>>), Base(Ee(3, 3), <<I3>>, <<R2>>), Base(Ee(3, 3), <<I3>>, <<[subj |-> 3, key |-> 3]>>),
            Base(Ee(4, 4), <<I3, I4>>, <<R1>>), Base(Ee(4, 4), <<I4, I3>>, <<R2, R1>>), Base(Ee(4, 4), <<I4>>, <<R1>>),
            Base(Ee(4, 4), <<Ca(4, 4, 5, 5), Ca(5, 5, 4, 4)>>, <<R1>>),                      \* loop without anchor
            Base(Ee(3, 3), <<Ca(3, 3, 2, 2), I3>>, <<R1>>),                                  \* cross-signed
            Base(Ee(9, 9), <<>>, <<R1>>),                                                    \* self-signed
            Base(Ee(9, 9), <<>>, <<[subj |-> 9, key |-> 9]>>),
            Base(Ee(1, 1), <<Ca(1, 1, 1, 1), I4>>, <<[subj |-> 1, key |-> 2]>>),             \* root name, other key
            Base(Ee(6, 6), <<Ca(6, 6, 4, 4), I4, I3>>, <<R1>>) }
CertFaults(c) == {[c EXCEPT !.nb = 501], [c EXCEPT !.na = 499], [c EXCEPT !.nb = 500], [c EXCEPT !.na = 500], [c EXCEPT !.nb = 600, !.na = 400],
                  [c EXCEPT !.ca = "none"], [c EXCEPT !.ca = "no"], [c EXCEPT !.ca = "yes"],
                  [c EXCEPT !.eku = "none"], [c EXCEPT !.eku = "client"], [c EXCEPT !.eku = "both"], [c EXCEPT !.eku = "other"],
                  [c EXCEPT !.good = FALSE], [c EXCEPT !.by = 7], [c EXCEPT !.iss = 7], [c EXCEPT !.key = 7], [c EXCEPT !.subj = 7],
                  [c EXCEPT !.der = "trunc"], [c EXCEPT !.names = <<>>], [c EXCEPT !.names = <<<<"b", "x", "test">>>>]}
                 \cup (IF c.ca = "yes" THEN {[c EXCEPT !.pl = 0], [c EXCEPT !.pl = 1]} ELSE {})
Good == [log |-> 1, ver |-> 0, mal |-> FALSE, by |-> 1, cert |-> "this", ts |-> 400]
SctKinds == {Good, [Good EXCEPT !.log = 2, !.by = 2], [Good EXCEPT !.log = 5, !.by = 5], [Good EXCEPT !.ver = 1], [Good EXCEPT !.mal = TRUE], [Good EXCEPT !.by = 2],
             [Good EXCEPT !.cert = "other"], [Good EXCEPT !.ts = 501], [Good EXCEPT !.ts = 500]}
Cts == {[on |-> o, logs |-> l, dl |-> d] : o \in BOOLEAN, l \in {<<>>, <<1>>, <<1, 2>>}, d \in {499, 500, 900}}
Muts(s) == {[s EXCEPT !.ee = c] : c \in CertFaults(s.ee)}
           \cup UNION {{[s EXCEPT !.ints[q] = c] : c \in CertFaults(s.ints[q])} : q \in 1..Len(s.ints)}
           \cup {[s EXCEPT !.t = t] : t \in {0, 1, 0 - 1, W, W + 1, 0 - 1600000000}}
           \cup {[s EXCEPT !.name = n] : n \in {<<"a", "y", "test">>, <<"y", "test">>, <<"b", "a", "y", "test">>, <<"b", "x", "test">>, <<"x", "test">>}}
           \cup {[s EXCEPT !.ct = [on |-> TRUE, logs |-> <<1, 2>>, dl |-> d], !.scts = <<x>>] : x \in SctKinds, d \in {W, 100}}
           \cup {[s EXCEPT !.roots = @ \o <<[subj |-> 7, key |-> 7]>>], [s EXCEPT !.ints = @ \o <<Ca(7, 7, 1, 1)>>]}
CtCases == {[Base(Ee(1, 1), <<>>, <<R1>>) EXCEPT !.ct = c, !.scts = x] :
              c \in Cts, x \in {<<>>} \cup [1..1 -> SctKinds] \cup [1..2 -> SctKinds] \cup [1..3 -> {Good, [Good EXCEPT !.log = 5], [Good EXCEPT !.ver = 2], [Good EXCEPT !.by = 2]}]}
Kx == {[by |-> b, msg |-> m, intact |-> i] : b \in {9, 7}, m \in {"right", "swapped", "noclient", "noserver", "params", "empty"}, i \in BOOLEAN}
Hsr(s) == {[f \in DOMAIN s \cup {"kx"} |-> IF f = "ev" THEN "hsr" ELSE IF f = "kx" THEN k ELSE s[f]] : k \in Kx}
Few == {Base(Ee(1, 1), <<>>, <<R1>>), Base(Ee(3, 3), <<I3>>, <<R1>>), Base(Ee(3, 3), <<I3>>, <<R2>>)}
HsrCases == UNION {Hsr(s) : s \in UNION {Muts(b) \cup {b} : b \in Few}}
VARIABLES s, n
vars == <<s, n>>
Init == \/ Part = "chain" /\ s \in Shapes /\ n = 0
        \/ Part = "ct" /\ s \in CtCases /\ n = 9
        \/ Part = "hs" /\ s \in HsrCases /\ n = 9
Next == n < (IF Pairs THEN 2 ELSE 1) /\ s' \in Muts(s) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

MaxTrust(x) == [x EXCEPT !.roots = <<>>]
(* trust comes from the roots only, more certificates never hurt, every accepted  *)
(* chain is in time, for the right use and name, and untampered at its leaf.      *)
NoRootsNoTrust == ~Accept(MaxTrust(s))
Monotone == Accept(s) => Accept([s EXCEPT !.ints = @ \o <<Ca(8, 8, 1, 1), Ca(3, 8, 2, 2)>>])
LeafSound == Accept(s) => /\ s.ee.good /\ s.ee.nb <= s.t /\ s.t <= s.ee.na /\ s.ee.eku # "client" /\ Named(s)
                          /\ \E k \in Ran(s.roots) \cup Ran(s.ints) : k.key = s.ee.by /\ k.subj = s.ee.iss
CtSound == (Accept(s) /\ s.ct.on /\ s.ct.logs # <<>> /\ s.t <= s.ct.dl /\ s.scts # <<>>) => \E q \in 1..Len(s.scts) : Sct(s, s.scts[q]) = "good"
ErrorsNamed == ChainAllowed(s) # {}
Emit == PrintT("SCN " \o ToJson(s))
==============================================================================
