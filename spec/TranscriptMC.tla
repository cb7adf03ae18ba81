----------------------------- MODULE TranscriptMC ---------------------------
EXTENDS Transcript, TLC, Json
CONSTANTS Depth
VARIABLES st, out, hist, last
vars == <<st, out, hist, last>>
SX == {<<>>, <<<<0, 1>>>>, <<<<1, 3>>>>, <<<<0, 1>>, <<2, 3>>>>, <<<<2, 4>>>>}
RX == {<<>>, <<<<1, 2>>>>, <<<<0, 2>>>>, <<<<1, 3>>>>}
SIn == {x \in SX : End(Idx(x)) <= 3}
RIn == {x \in RX : End(Idx(x)) <= 2}
New == [op |-> "start", s |-> <<11, 12, 13>>, r |-> <<21, 22>>]
Data(n) == [q \in 1..n |-> 40 + q]
Ops == {[op |-> "get", d |-> d, x |-> x] : d \in {"s", "r"}, x \in SX \cup RX}
  \cup {[op |-> "partial", sx |-> x, rx |-> y] : x \in SX, y \in RX}
  \cup {[op |-> "new", sn |-> n[1], rn |-> n[2]] : n \in {<<3, 2>>, <<0, 0>>}}
  \cup {[op |-> "contains", d |-> d, x |-> x] : d \in {"s", "r"}, x \in SX \cup RX}
  \cup {[op |-> "union", s |-> s, r |-> r, sx |-> x, rx |-> y] :
          s \in {<<11, 12, 13>>, <<31, 32, 33>>}, r \in {<<21, 22>>, <<51, 52>>}, x \in SIn, y \in RIn}
  \cup {[op |-> "union", s |-> <<1, 2>>, r |-> <<21, 22>>, sx |-> <<>>, rx |-> <<>>],
        [op |-> "union", s |-> <<11, 12, 13>>, r |-> <<1, 2, 3>>, sx |-> <<>>, rx |-> <<<<0, 3>>>>]}
  \cup UNION {{[op |-> "put", d |-> d, x |-> x, data |-> Data(n)] :
                 n \in {Cardinality(Idx(x)), Cardinality(Idx(x)) + 1}} : d \in {"s", "r"}, x \in SX \cup RX}
  \cup {[op |-> "fill", v |-> 9]} \cup {[op |-> "fillr", d |-> d, v |-> 8, x |-> x] : d \in {"s", "r"}, x \in {<<0, 2>>, <<1, 1>>, <<1, 2>>}}
  \cup {[op |-> "wire"]}
  \cup UNION {{[op |-> "unwire", s |-> Data(n), r |-> Data(m), sx |-> x, rx |-> y, sn |-> sn, rn |-> rn] :
          n \in {Cardinality(Idx(x)), Cardinality(Idx(x)) + 1}, m \in {Cardinality(Idx(y)), Cardinality(Idx(y)) + 1},
          sn \in {0, 3}, rn \in {2}} : x \in {<<>>, <<<<0, 1>>, <<2, 3>>>>, <<<<2, 4>>>>}, y \in {<<>>, <<<<1, 2>>>>, <<<<1, 3>>>>}}
  \cup {[op |-> "seq", x |-> x, data |-> Data(n)] : x \in {<<>>, <<<<0, 1>>, <<2, 3>>>>}, n \in 0..3}
Init == st = Start(New).st /\ out = Start(New).out /\ hist = <<New>> /\ last = "start"
\* fillr within bounds of an empty transcript only
Legal(e) == e.op = "fillr" => e.x[2] <= Len(Side(st.p, e.d))
Next == Len(hist) < Depth + 1 /\ \E e \in Ops : Legal(e) /\ LET n == Do(st, e) IN
          st' = n.st /\ out' = n.out /\ hist' = Append(hist, e) /\ last' = e.op
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist)>>
(* positions authenticated stay inside, and what leaves on the wire is no more     *)
Inside == In(st.p.s, st.p.sa) /\ In(st.p.r, st.p.ra)
Private == LET k == Packed(st.p) IN Len(k.s) = Cardinality(st.p.sa) /\ Len(k.r) = Cardinality(st.p.ra)
(* what is authenticated changes only by an authenticated subsequence or a new one  *)
Kept == [][last' \in {"union", "fill", "fillr", "get", "contains", "seq"} =>
             /\ st.p.sa \subseteq st'.p.sa /\ st.p.ra \subseteq st'.p.ra
             /\ \A q \in st.p.sa : st'.p.s[q + 1] = st.p.s[q + 1]
             /\ \A q \in st.p.ra : st'.p.r[q + 1] = st.p.r[q + 1]]_vars
(* serialising and reading back keeps exactly the authenticated part              *)
RoundTrip == LET k == Packed(st.p)
                 e == [s |-> k.s, r |-> k.r, sx |-> [q \in 1..Len(k.sa) |-> <<k.sa[q], k.sa[q] + 1>>],
                       rx |-> [q \in 1..Len(k.ra) |-> <<k.ra[q], k.ra[q] + 1>>], sn |-> k.sn, rn |-> k.rn] IN
             PackOk(e) /\ Unpack(e) = [st.p EXCEPT !.s = Keep(@, st.p.sa), !.r = Keep(@, st.p.ra)]
EmitScn == PrintT("SCN " \o ToJson(hist'))
==============================================================================
