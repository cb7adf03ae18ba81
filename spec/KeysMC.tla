------------------------------- MODULE KeysMC -------------------------------
(* Every key, encoding, entry point and fault with a few offers; every offer of
   up to two schemes to every key. *)
EXTENDS Keys, TLC, Json
VARIABLE e
Names == {"ec256", "ec384", "ed", "rsa", "ec521"}
Forms(k) == IF k \in {"ec256", "ec384", "rsa"} THEN {"key", "alt"} ELSE {"key"}
Codes == {1027, 1283, 1539, 515, 2052, 2053, 2054, 1025, 1281, 1537, 513, 2055, 2056, 4660}
All == <<4660, 1025, 1281, 1537, 2052, 2053, 2054, 2056, 2055, 1539, 1283, 1027>>
Ev(k, f, v, ft, of) == [op |-> "key", key |-> k, form |-> f, via |-> v, fault |-> ft, offer |-> of, n |-> 33]
Init == \/ \E k \in Names : \E f \in Forms(k), v \in {"any", "ecdsa", "eddsa", "rsa"}, ft \in {"none", "short", "empty", "tag"} : e = Ev(k, f, v, ft, All)
        \/ \E k \in Names : \E a \in Codes, b \in Codes : e = Ev(k, "key", "any", "none", <<a, b>>)
        \/ \E k \in Names : e = Ev(k, "key", "any", "none", <<>>)
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
\* a signature is only ever made with an offered scheme of the key's own kind
Consistent == LET x == Exp(e) IN (x.sch # 0 => In(x.sch, e.offer) /\ In(x.sch, Order(e.key))) /\ (x.good <=> x.sch # 0)
\* a scheme both sides know is found
Live == (e.fault = "none" /\ e.via = "any" /\ \E i \in 1..Len(e.offer) : In(e.offer[i], Order(e.key))) => Exp(e).sch # 0
Emit == PrintT("SCN " \o ToJson(<<e>>))
=============================================================================
