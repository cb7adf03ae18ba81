------------------------------ MODULE SuitesMC ------------------------------
EXTENDS Suites, Json
CONSTANT Small
Perm(n, D) == {s \in [1..n -> D] : \A p, q \in 1..n : p # q => s[p] # s[q]}
Unknown == 64250
Lists == UNION {Perm(n, {49195, 49199, 52392, 4865, Unknown}) : n \in 0..3}
SLists == UNION {Perm(n, {49195, 49199, 52392, 4865}) : n \in 0..3}
Full == {<<49195, 49196, 49199, 49200, 52392, 52393, 4865, 4866, 4867>>}
SchemeSet == {513, 515, 1025, 1281, 1537, 2052, 2053, 2054, 1027, 1283, 1539, 2055, 2056, 0}
Cases ==
  {[ev |-> t, client |-> c, server |-> s] : t \in {"client", "server"}, c \in Lists, s \in SLists}
  \cup {[ev |-> "bysig", alg |-> a, suites |-> s] : a \in {1, 2, 3, 7}, s \in SLists \cup Full}
  \cup {[ev |-> "byver", v |-> v, suites |-> s] : v \in {768, 769, 770, 771, 772, 773}, s \in SLists \cup Full}
  \cup {[ev |-> "compat", scheme |-> x, suites |-> s] : x \in SchemeSet, s \in SLists \cup Full}
  \cup {[ev |-> "resolve", id |-> i, offered |-> o] : i \in {x \in Ids : Table[x].ver = 771}, o \in UNION {Perm(n, SchemeSet) : n \in 0..2}}
  \cup {[ev |-> "resume", a |-> i, b |-> j] : i, j \in {4865, 4866, 4867}}
  \cup {[ev |-> "eq", a |-> i, b |-> j] : i, j \in Ids}
  \cup {[ev |-> t] : t \in {"hashlen", "sentinel", "allversions"}}
  \cup {[ev |-> "info", id |-> i] : i \in Ids} \cup {[ev |-> "offered"]}
  \cup {[ev |-> "make", alg |-> 1, hash |-> h] : h \in {2, 4, 5, 6}} \cup {[ev |-> "make", alg |-> 3, hash |-> h] : h \in {4, 5, 6}}
  \cup {[ev |-> "versions", on |-> s, ask |-> <<512, 768, 769, 770, 771, 772, 773, 65279>>] : s \in UNION {[1..n -> {771, 772}] : n \in 0..3}}
VARIABLE e
Init == e \in Cases
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
r == Exp(e)
(* what is selected was offered by both sides, is best for the preferring side,  *)
(* and both orders agree on whether anything is common                           *)
Chosen == e.ev \in {"client", "server"} =>
  /\ (r = <<>>) <=> (Ran(e.client) \cap Ran(e.server) = {})
  /\ r # <<>> => r[1] \in Ran(e.client) \cap Ran(e.server)
Offer12 == \A i \in Ran(Offered) : Table[i].ver = 771 /\ Table[i].aead = "AES_128_GCM" /\ Table[i].iv + Table[i].ex = 12
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
