-------------------------------- MODULE Keys --------------------------------
(* Private keys a client may authenticate with. *)
EXTENDS Integers, Sequences
RsaOrder == <<2054, 2053, 2052, 1537, 1281, 1025>>
Order(key) == CASE key = "ec256" -> <<1027>> [] key = "ec384" -> <<1283>> [] key = "ed" -> <<2055>> [] key = "rsa" -> RsaOrder [] OTHER -> <<>>
Alg(key) == CASE key \in {"ec256", "ec384"} -> "ECDSA" [] key = "rsa" -> "RSA" [] OTHER -> ""
Accepts(via) == CASE via = "any" -> {"ec256", "ec384", "ed", "rsa"} [] via = "ecdsa" -> {"ec256", "ec384"}
                  [] via = "eddsa" -> {"ed"} [] via = "rsa" -> {"rsa"}
In(x, s) == \E i \in 1..Len(s) : s[i] = x
First(order, offer) == LET I == {i \in 1..Len(order) : In(order[i], offer)} IN
                       IF I = {} THEN 0 ELSE order[CHOOSE i \in I : \A j \in I : i <= j]
Exp(e) == LET ok == e.fault = "none" /\ e.key \in Accepts(e.via)
              sch == IF ok THEN First(Order(e.key), e.offer) ELSE 0
          IN [ok |-> ok, alg |-> IF ok THEN Alg(e.key) ELSE "", sch |-> sch, good |-> sch # 0, other |-> FALSE]
Ok(e) == e.out = Exp(e)
=============================================================================
