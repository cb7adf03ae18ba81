------------------------------- MODULE MerkleMC -----------------------------
EXTENDS Merkle, TLC, Json
VARIABLE e
Sizes == 1..6
Subs(n) == {x \in UNION {[1..k -> 0..(n - 1)] : k \in 1..3} : Ascending(x)}
Trees == {[q \in 1..n |-> q] : n \in Sizes} \cup {<<1, 1>>, <<1, 1, 2>>, <<1, 2, 1, 2>>, <<1, 2, 2, 1, 3>>}
Right(n, x) == [q \in 1..Len(x) |-> <<x[q], n[x[q] + 1]>>]
Vary(n, x) == LET c == Right(n, x) IN
  {c, Reverse(c), Append(c, c[1]), SubSeq(c, 2, Len(c))}
  \cup {[c EXCEPT ![q][2] = v] : q \in DOMAIN c, v \in 1..3}
  \cup {[c EXCEPT ![q][1] = v] : q \in DOMAIN c, v \in 0..Len(n)}
  \cup {Append(c, <<v, n[v + 1]>>) : v \in 0..(Len(n) - 1)}
Init == e \in UNION {UNION {{[ev |-> "merkle", n |-> n, x |-> x, c |-> c, f |-> f, alg |-> 1 + (Len(c) % 3)] :
                 c \in Vary(n, x), f \in {"", "root", "drop", "swap", "alg"}} : x \in Subs(Len(n))} : n \in Trees}
        \cup {[ev |-> "merkle", n |-> <<1, 2, 3>>, x |-> x, c |-> <<>>, f |-> "", alg |-> 1] : x \in {<<>>, <<1, 0>>, <<1, 1>>, <<3>>, <<0, 3>>}}
        \cup {[ev |-> "algid", id |-> n] : n \in 0..255} \cup {[ev |-> "value", n |-> n] : n \in 0..130}
        \cup {[ev |-> "insert", tree |-> a, hasher |-> b] : a \in 1..3, b \in 1..3}
        \cup {[ev |-> "provider", set |-> s, ask |-> <<0, 1, 2, 3, 4, 128, 200, 201, 255>>] : s \in {<<>>, <<200>>, <<128, 201>>}}
Spec == Init /\ [][FALSE /\ UNCHANGED e]_e
(* honest claims are accepted; whatever is accepted is in the tree                     *)
Complete == e.ev = "merkle" /\ e.f = "" /\ Ascending(e.x) /\ e.x # <<>> /\ e.x[Len(e.x)] < Len(e.n)
            => Accepted([e EXCEPT !.c = Right(e.n, e.x)])
Sound == e.ev = "merkle" /\ Ascending(e.x) /\ e.x # <<>> /\ e.x[Len(e.x)] < Len(e.n) /\ e.f \in {"", "swap", "drop"} /\ Accepted(e)
            => \A q \in DOMAIN e.c : \E k \in DOMAIN e.n : e.n[k] = e.c[q][2]
Place == e.ev = "merkle" /\ Ascending(e.x) /\ e.x # <<>> /\ e.x[Len(e.x)] < Len(e.n) /\ Accepted(e)
            => \A q \in DOMAIN e.c : e.n[e.c[q][1] + 1] = e.c[q][2]
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
