------------------------------ MODULE DeapMC --------------------------------
(* Programs of up to Depth operations over an input of each kind, run honestly,
   with a falsified call, or with another private input proven about. *)
EXTENDS Deap, TLC, Json
CONSTANTS Depth
VARIABLES o, s, h, f
I(w, v, z, c) == [ev |-> "in", who |-> w, v |-> v, z |-> z, commit |-> c]
Opens == {[ev |-> "new", m |-> m, z |-> 5, call |-> c, bit |-> b] : m \in {0, 8}, c \in 0..2, b \in {0, 9}}
Ins == {<<I("L", <<3, 200>>, z, TRUE), I("F", <<77, 9>>, <<77, 9>>, TRUE), I("P", <<255, 0>>, <<255, 0>>, TRUE)>> : z \in {<<3, 200>>, <<3, 201>>}}
       \cup {<<I("F", <<77, 9>>, <<77, 9>>, TRUE), I("L", <<3, 200>>, <<3, 200>>, FALSE), I("P", <<255, 0>>, <<255, 0>>, TRUE), I("L", <<3>>, <<7>>, TRUE)>>}
X(a, x, b, y, n) == [ev |-> "xor", a |-> <<a, x, n>>, b |-> <<b, y, n>>]
D(a, x, n) == [ev |-> "decode", x |-> <<a, x, n>>]
Menu == LET n == Len(s.vars)  w == Len(s.vars[n].m) IN
  {X(1, 0, 2, 0, 2), X(2, 1, 3, 0, 1), X(n, 0, 1, 0, w), X(n, w - 1, 2, 1, 1),
   D(n, 0, w), D(n, w - 1, 1), D(1, 0, 2), D(2, 1, 1), D(n, 0, w + 1), [ev |-> "run"]}
Begin(q) == LET a == Act(Start, o, q[1]).s  b == Act(a, o, q[2]).s  c == Act(b, o, q[3]).s IN
            IF Len(q) = 3 THEN c ELSE Act(c, o, q[4]).s
Init == o \in Opens /\ (o.call = 0 => o.bit = 0) /\ h \in Ins /\ s = Begin(h) /\ f = "no"
N == Len(SelectSeq(h, LAMBDA e : e.ev # "in"))
Next == \/ /\ N < Depth
           /\ \E e \in Menu : h' = Append(h, e) /\ s' = Act(s, o, e).s
           /\ UNCHANGED <<o, f>>
        \/ /\ N = Depth /\ f = "no"
           /\ LET e == [ev |-> "finish"] r == Act(s, o, e) IN h' = Append(h, e) /\ s' = r.s /\ f' = r.f
           /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, s, h, f>>
(* the follower never accepts a value that was not proven *)
Sound == f = "ok" => LET q == Sees(s, "F") IN \A k \in DOMAIN q.d : q.d[k] = <<>> \/ q.d[k] = q.zd[k]
(* nobody is accused falsely *)
Fair == f = "err" => o.call > 0 \/ \E k \in DOMAIN h : h[k].ev = "in" /\ h[k].v # h[k].z
(* the leader learns nothing of the follower's before the end but what is decoded *)
Secret == f = "no" => \A k \in DOMAIN s.vars : s.vars[k].own = "F"
            /\ (KnowZ(s, "L", Whole(s, k)) # <<>> \/ Know(s, "L", Whole(s, k)) # <<>>) => Covered(s, Whole(s, k), Told)
(* the follower never learns the leader's *)
Private == \A k \in DOMAIN s.vars : s.vars[k].own = "L"
            /\ (KnowZ(s, "F", Whole(s, k)) # <<>> \/ Know(s, "F", Whole(s, k)) # <<>>) => Covered(s, Whole(s, k), Told)
Emit == IF f # "no" THEN PrintT("SCN " \o ToJson(<<o>> \o h)) ELSE TRUE
=============================================================================
