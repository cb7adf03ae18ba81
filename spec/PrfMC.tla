------------------------------- MODULE PrfMC --------------------------------
EXTENDS Prf, TLC, Json
(* toy HMAC with a 2-byte code *)
Sum(s) == LET F[q \in 0..Len(s)] == IF q = 0 THEN 7 ELSE (F[q - 1] * 5 + s[q] + q) % 17 IN F[Len(s)]
Toy(m) == <<Sum(m), (Sum(m) * Sum(m) + Len(m)) % 19>>
Seqs == UNION {[1..k -> {1, 2}] : k \in 0..2}
CaseSet == [n : {0, 1, 12, 31, 32, 33, 47, 48, 63, 64, 65, 96, 104, 129}, sec : {0, 1, 32, 48, 63, 64, 65, 130}, lab : {0, 1, 13, 15, 22}, seed : {0, 1, 32, 64, 77}]
VARIABLES c, m
Init == \/ c \in CaseSet /\ m = "case"
        \/ c \in [l : Seqs, s : Seqs, n : 0..7, k : 0..7] /\ m = "toy"
Next == FALSE /\ UNCHANGED <<c, m>>
Spec == Init /\ [][Next]_<<c, m>>
(* exactly n bytes, shorter outputs are prefixes of longer ones, only the       *)
(* concatenation of label and seed matters                                      *)
Good == m = "toy" =>
  LET o == PrfOut(Toy, c.l, c.s, c.n) IN
  /\ Len(o) = c.n
  /\ c.k <= c.n => SubSeq(o, 1, c.k) = PrfOut(Toy, c.l, c.s, c.k)
  /\ o = PrfOut(Toy, <<>>, c.l \o c.s, c.n)
Emit == m = "case" => PrintT("SCN " \o ToJson(c))
==============================================================================
