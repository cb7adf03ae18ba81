------------------------------- MODULE HarnMC -------------------------------
EXTENDS Harn, Json, TLC
CONSTANT What
A == <<97>>
B == <<98>>
None == [k \in 1..10 |-> <<>>]
At(k, v) == [None EXCEPT ![k] = v]
Vals(k) == IF k >= 7 THEN {<<>>, <<0>>, <<1>>} ELSE IF k = 1 THEN {<<>>, <<0>>, <<2>>} ELSE {<<>>, <<7>>, <<0>>}
G(n, f) == [name |-> n, f |-> f]
I(g, n, f) == [group |-> g, name |-> n, f |-> f]
Ev(gs, its, s, o) == [ev |-> "bench", groups |-> gs, items |-> its, samples |-> s, ovr |-> o]
(* one field at a time: item, group and default; repeated and undefined groups; order of runs *)
Fields == UNION {{Ev(<<G(A, At(k, vg)), G(B, At(k, vh))>>, <<I(<<A>>, <<>>, At(k, vi))>>, s, o) :
             vg \in Vals(k), vh \in {<<>>, <<1>>}, vi \in Vals(k), s \in {0, 1, 3}, o \in BOOLEAN} : k \in 1..10}
Dup == {Ev(<<G(A, At(k, <<1>>)), G(B, None), G(A, At(j, <<0>>))>>, <<I(<<A>>, <<B>>, None), I(<<B>>, <<A>>, None)>>, 1, FALSE) : k, j \in 1..10}
Names == {<<>>, <<A>>, <<B>>, <<<<97, 98>>>>}
Items == {I(g, n, At(1, s)) : g \in {<<>>, <<A>>, <<B>>}, n \in Names, s \in {<<>>, <<2>>}}
Orders == {Ev(gs, <<x, y, I(<<A>>, <<A>>, At(2, <<9>>))>>, s, o) :
            gs \in {<<G(A, None), G(B, At(1, <<3>>))>>, <<G(A, None)>>, <<>>}, x, y \in Items, s \in {1, 2}, o \in BOOLEAN}
Nets == {[ev |-> "net", ip |-> ip, prefix |-> p] :
           ip \in {<<10, 250, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0>>, <<192, 168, 7, 201>>, <<172, 31, 255, 240>>}, p \in 0..32}
Alpha == {99, 67, 115, 83}
Modes == {[ev |-> "mode", s |-> s] : s \in {Client, Server} \cup {[Client EXCEPT ![k] = @ - 32] : k \in 1..6} \cup {[Server EXCEPT ![k] = @ - 32] : k \in 1..6}
            \cup {[k \in 1..6 |-> Client[k] - 32], [k \in 1..6 |-> Server[k] - 32], <<>>, Append(Client, 115), Tail(Server), Append(Client, 32)}
            \cup {[Client EXCEPT ![k] = 120] : k \in 1..6} \cup {<<a>> : a \in Alpha}}
Outs == {[ev |-> "outp", have |-> h, want |-> w] : h \in 0..3, w \in 1..3}
Stats == {[ev |-> "status", st |-> s] : s \in {"passed", "timedout", "failed", "failed2"}}
Measures == {[ev |-> "meas", c |-> [[k \in 1..9 |-> IF k > 5 THEN (k % 2) ELSE 10 + k] EXCEPT ![i] = 0], m |-> [[k \in 1..10 |-> 100 + k] EXCEPT ![j] = 0]] : i \in 1..9, j \in 1..10}
Wire == {[ev |-> "wire", t |-> t] : t \in {"tests", "test", "bench", "otests", "otest", "obench", "overifier", "error", "result", "config"}}
Cases == IF What = "bench" THEN Fields \cup Dup \cup Orders ELSE IF What = "net" THEN Nets ELSE Modes \cup Outs \cup Stats \cup Measures \cup Wire
VARIABLE e
Init == e \in Cases
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
r == Exp(e)
Num(x) == Cardinality({p \in 1..Len(r.b) : r.b[p] = x})
RECURSIVE Sum(_)
Sum(p) == IF p = 0 THEN 0 ELSE Sum(p - 1) + Count(e, e.items[p])
(* sorted, as many runs as asked for, and every run is some item's *)
BenchInv == e.ev = "bench" /\ r.res = "ok" =>
  /\ \A p, q \in 1..Len(r.b) : p < q => ~Before(r.b[q], r.b[p])
  /\ Len(r.b) = Sum(Len(e.items))
  /\ \A p \in 1..Len(r.b) : \E q \in 1..Len(e.items) : r.b[p] = Run(e, e.items[q])
  /\ e.ovr => Len(r.b) = e.samples * Len(e.items)
NetInv == e.ev = "net" /\ r.res = "ok" => \A p, q \in 1..10 : p # q => SubSeq(r.a[p], 1, 4) # SubSeq(r.a[q], 1, 4)
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
