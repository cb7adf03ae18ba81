-------------------------------- MODULE Merkle ------------------------------
(* Merkle trees over ideal hashes (a node is the pair of its children, an odd     *)
(* last node moves up), proofs for sets of leaves, and the hash types.            *)
(*   e.n  leaves, as numbers (equal numbers are equal leaves)                     *)
(*   e.x  positions proven (from 0)     e.c  claimed <<position, leaf>>           *)
(*   e.f  what is wrong besides: "", "root", "drop", "swap", "alg"                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RngOf(s) == {s[q] : q \in DOMAIN s}
Half(n) == (n + 1) \div 2
Up(l) == [q \in 1..Half(Len(l)) |-> IF 2 * q > Len(l) THEN l[2 * q - 1] ELSE <<l[2 * q - 1], l[2 * q]>>]
RECURSIVE Root(_)
Root(l) == IF Len(l) = 1 THEN l[1] ELSE Root(Up(l))
Sib(q) == IF q % 2 = 0 THEN q + 1 ELSE q - 1
Ascending(x) == \A q \in 1..(Len(x) - 1) : x[q] < x[q + 1]
Leaves(s) == [q \in 1..Len(s) |-> <<s[q]>>]
(* the hashes of a proof, layer by layer, ascending                               *)
RECURSIVE Path(_, _)
Path(l, K) == IF Len(l) = 1 THEN <<>>
  ELSE LET M == {q \in {Sib(k) : k \in K} : q < Len(l) /\ q \notin K}
           a == SetToSortSeq(M, <) IN
       [q \in 1..Len(a) |-> l[a[q] + 1]] \o Path(Up(l), {k \div 2 : k \in K})
(* recomputing the root from claims K (position -> hash) and proof p               *)
Missing == <<>>
RECURSIVE Recompute(_, _, _)
Recompute(K, p, n) ==
  IF n = 1 THEN K[0]
  ELSE LET M == {q \in {Sib(k) : k \in DOMAIN K} : q < n /\ q \notin DOMAIN K}
           a == SetToSortSeq(M, <) IN
       IF Len(p) < Len(a) THEN Missing
       ELSE LET A == [q \in DOMAIN K \cup M |-> IF q \in DOMAIN K THEN K[q] ELSE p[CHOOSE k \in 1..Len(a) : a[k] = q]] IN
            Recompute([q \in {k \div 2 : k \in DOMAIN A} |->
                         IF 2 * q + 1 < n THEN <<A[2 * q], A[2 * q + 1]>> ELSE A[2 * q]],
                      SubSeq(p, Len(a) + 1, Len(p)), Half(n))
ProofOf(e) == LET p == Path(Leaves(e.n), RngOf(e.x)) IN
              CASE e.f = "drop" /\ p # <<>> -> SubSeq(p, 1, Len(p) - 1)
                [] e.f = "swap" /\ Len(p) >= 2 -> <<p[2], p[1]>> \o SubSeq(p, 3, Len(p))
                [] OTHER -> p
Distinct(c) == \A q, k \in DOMAIN c : q # k => c[q][1] # c[k][1]
KnownOf(c) == [q \in {c[k][1] : k \in DOMAIN c} |-> <<c[CHOOSE k \in DOMAIN c : c[k][1] = q][2]>>]
Accepted(e) == /\ Distinct(e.c) /\ e.c # <<>> /\ \A q \in DOMAIN e.c : e.c[q][1] < Len(e.n)
               /\ e.f # "root"
               /\ (e.f = "alg" => Len(e.n) = 1)
               /\ Recompute(KnownOf(e.c), ProofOf(e), Len(e.n)) = Root(Leaves(e.n))
Merkle(e) == IF ~Ascending(e.x) \/ e.x = <<>> \/ e.x[Len(e.x)] >= Len(e.n) THEN [panic |-> TRUE]
             ELSE [ok |-> Accepted(e), alg |-> e.alg]
Known == {1, 2, 3}
Exp(e) ==
  CASE e.ev = "merkle" -> Merkle(e)
    [] e.ev = "insert" -> IF e.tree = e.hasher THEN [same |-> TRUE] ELSE [panic |-> TRUE]
    [] e.ev = "hash" -> [alg |-> e.alg, n |-> 32, prefixed |-> TRUE, reference |-> TRUE]
    [] e.ev = "value" -> IF e.n <= 64 THEN [ok |-> TRUE, n |-> e.n, back |-> TRUE] ELSE [ok |-> FALSE]
    [] e.ev = "algid" -> [ok |-> e.id >= 128]
    [] e.ev = "provider" -> [known |-> [q \in DOMAIN e.ask |-> e.ask[q] \in Known \cup RngOf(e.set)]]
    [] e.ev = "eq" -> [same |-> e.a = e.b]
Ok(e) == e.out = Exp(e)
==============================================================================
