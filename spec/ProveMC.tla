------------------------------ MODULE ProveMC -------------------------------
EXTENDS Prove, Json
CONSTANTS Family, Depth
VARIABLES o, up, h
O(s, r) == [ev |-> "open", sent |-> s, recv |-> r, seed |-> 1, late |-> FALSE, eph |-> FALSE, noroot |-> FALSE]
None == [k |-> "none", id |-> "honest"]
P(rev, cs, id, lie, a) == [ev |-> "prove", reveal |-> rev, commits |-> cs, id |-> id, lie |-> lie, answer |-> a]
C(d, x, a) == [d |-> d, x |-> x, alg |-> a]
Opens == CASE Family = "ranges" -> {O(s, r) : s \in {<<>>, <<0>>, <<5>>, <<16>>, <<3, 20>>, <<0, 4>>, <<4, -2, 30>>, <<-4, 17, 0, 1>>}, r \in {<<2>>, <<>>}}
           [] Family = "ids" -> {[O(<<3>>, <<2>>) EXCEPT !.late = a, !.eph = b, !.noroot = c] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN}
           [] OTHER -> {O(<<3, 17>>, <<2, 2>>)}
(* sets of positions of n bytes: nothing, an end, an edge of a block or record, all *)
Some(n) == {<<>>} \cup {<<<<a, b>>>> : a \in {k \in {0, 1, 3, 15, 16} : k < n}, b \in {k \in {1, 2, 4, 16, 17, n - 1, n} : k > 0 /\ k <= n}}
           \cup (IF n > 4 THEN {<<<<0, 1>>, <<2, 4>>, <<n - 1, n>>>>, <<<<1, 2>>, <<3, n>>>>} ELSE {})
Fine(x) == \A k \in DOMAIN x : x[k][1] < x[k][2]
Ranges(oo) == LET n == Of(oo, "s") IN
  {P(rv, cs, FALSE, None, "accept") :
     rv \in {<<>>} \cup {<<x, y>> : x \in {x \in Some(n) : Fine(x)}, y \in {<<>>} \cup (IF oo.recv = <<>> THEN {} ELSE {<<<<0, 2>>>>})},
     cs \in {<<>>} \cup {<<C("s", x, "sha256")>> : x \in {x \in Some(n) : Fine(x)}}
            \cup (IF n > 1 THEN {<<C("s", <<<<0, n>>>>, "sha256"), C("s", <<<<0, 1>>>>, "blake3"), C("s", <<<<n - 1, n>>>>, "sha256")>>} ELSE {})}
Revs == {<<>>, <<<<>>, <<>>>>, <<<<<<0, 20>>>>, <<>>>>, <<<<<<0, 4>>>>, <<<<1, 2>>>>>>, <<<<<<2, 19>>>>, <<<<0, 4>>>>>>, <<<<<<0, 1>>, <<18, 20>>>>, <<<<0, 3>>>>>>}
ComsOf == {<<>>, <<C("s", <<<<0, 20>>>>, "sha256")>>, <<C("s", <<<<1, 3>>, <<4, 5>>>>, "blake3"), C("r", <<<<0, 4>>>>, "sha256")>>, <<C("r", <<<<1, 2>>>>, "keccak")>>}
LiesOf == {[k |-> k, id |-> "honest", d |-> "s", i |-> i] : k \in {"byte", "msg"}, i \in {0, 1, 2, 3, 4, 15, 16, 18, 19}}
          \cup {[k |-> k, id |-> "honest", d |-> "r", i |-> i] : k \in {"byte", "msg"}, i \in 0..3}
Ends(x) == IF x = <<>> THEN 0 ELSE x[Len(x)][2]
Odd == {P(rv, cs, FALSE, l, "accept") : rv \in Revs, cs \in ComsOf,
          l \in {[k |-> "drop", id |-> "honest"], [k |-> "extra", id |-> "honest"]}
                \cup {[k |-> "len", id |-> "honest", d |-> d, i |-> i] : d \in Dirs, i \in {20, 21, 40}}
                \cup {[k |-> "auth", id |-> "honest", d |-> d, x |-> x] : d \in Dirs, x \in {<<>>, <<<<0, 4>>>>, <<<<0, 1>>>>, <<<<1, 2>>>>}}}
       \cup {P(rv, Append(cs, C(d, <<x>>, "sha256")), FALSE, [k |-> "beyond", id |-> "honest"], a) :
               rv \in Revs, cs \in {<<>>, <<C("s", <<<<0, 20>>>>, "sha256")>>}, d \in Dirs, x \in {<<0, 21>>, <<20, 21>>, <<19, 60>>, <<100, 101>>}, a \in {"accept", "reject"}}
IdLies == {"honest", "omitted", "unasked", "name", "other", "sig", "chain", "nocerts", "binding"}
Ids == {P(rv, <<>>, i, [k |-> "none", id |-> l], a) : rv \in {<<>>, <<<<<<0, 1>>>>, <<<<0, 2>>>>>>}, i \in BOOLEAN, l \in IdLies, a \in {"accept", "reject"}}
Rounds == {P(<<<<<<0, 20>>>>, <<<<0, 4>>>>>>, <<>>, TRUE, None, a) : a \in {"accept", "reject"}}
          \cup {P(<<<<<<0, 2>>>>, <<>>>>, <<C("s", <<<<1, 5>>>>, "sha256")>>, FALSE, l, "accept") :
                  l \in {None, [k |-> "byte", id |-> "honest", d |-> "s", i |-> 4], [k |-> "byte", id |-> "honest", d |-> "s", i |-> 6], [k |-> "none", id |-> "sig"]}}
          \cup {P(<<>>, <<C("s", <<<<0, 20>>>>, "blake3"), C("r", <<<<0, 1>>>>, "sha256")>>, FALSE, None, "accept"), P(<<>>, <<>>, FALSE, None, "accept")}
Menu == CASE Family = "ranges" -> Ranges(o)
          [] Family = "lies" -> {P(rv, cs, FALSE, l, "accept") : rv \in Revs, cs \in ComsOf, l \in LiesOf}
          [] Family = "odd" -> Odd
          [] Family = "ids" -> Ids
          [] OTHER -> Rounds
Init == o \in Opens /\ up = TRUE /\ h = <<>>
Next == /\ up /\ Len(h) < Depth
        /\ \E e \in Menu : h' = Append(h, e) /\ up' = GoesOn(o, e)
        /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, up, h>>
(* what the verifier accepts is true: the bytes, the commitments, the identity *)
Sound == \A k \in DOMAIN h : LET e == h[k] IN Accepts(o, e) =>
  /\ \A d \in Dirs : /\ \A i \in Rev(e, d) : i < Of(o, d) /\ ShownRight(e, d, i)
                     /\ \A i \in Com(e, d) : i < Of(o, d) /\ ProvenRight(e, d, i)
  /\ Name(o, e) # "" => GoodId(o, e)
(* who tells the truth is believed *)
Complete == \A k \in DOMAIN h : LET e == h[k] IN
  (/\ e.lie = None /\ e.answer = "accept" /\ \A c \in Coms(e) : c.alg \in Supported
   /\ (e.id => ~o.late /\ ~o.eph /\ ~o.noroot)) => Accepts(o, e)
(* a lie is accepted only where nothing depends on it *)
Harmful == \A k \in DOMAIN h : LET e == h[k] IN
  (Accepts(o, e) /\ e.lie.k \in {"byte", "msg"}) => e.lie.i \notin Rev(e, e.lie.d)
(* one fault ends it *)
Ends1 == \A i \in DOMAIN h : i < Len(h) => GoesOn(o, h[i])
Emit == IF Len(h) = Depth \/ (h # <<>> /\ ~up) THEN PrintT("SCN " \o ToJson(<<o>> \o h)) ELSE TRUE
=============================================================================
