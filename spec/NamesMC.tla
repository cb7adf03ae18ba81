------------------------------- MODULE NamesMC ------------------------------
EXTENDS Names, TLC, Json
A == {46, 45, 97, 53, 95, 90, 42}
Short == UNION {[1..n -> A] : n \in 0..4}
Rep(c, n) == [q \in 1..n |-> c]
Long == {Rep(97, n) : n \in {62, 63, 64, 253, 254}} \cup {Rep(97, 63) \o <<46>> \o Rep(98, n) : n \in {62, 63, 64}}
        \cup {Rep(97, 62) \o <<46>> \o Rep(97, 62) \o <<46>> \o Rep(97, 62) \o <<46>> \o Rep(97, n) \o t : n \in {61, 62, 63, 64}, t \in {<<>>, <<46>>}}
        \cup {Rep(97, k) \o <<45>> \o Rep(97, n) : k \in {1, 62}, n \in {1, 0, 61}} \cup {<<97, 0>>, <<97, 32, 98>>, <<195, 164>>, <<49, 46, 50, 46, 51, 46, 52>>}
VARIABLE e
Init == e \in {[ev |-> "name", b |-> b] : b \in Short \cup Long}
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
(* a valid name stays valid without its trailing dot and the SNI never has one    *)
Trimmed == DnsOk(e.b) => DnsOk(Trim(e.b)) /\ Trim(Trim(e.b)) = Trim(e.b)
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
