-------------------------------- MODULE Deap --------------------------------
(* Dual execution: a leader and a follower compute in an MPC VM in which the
   leader can falsify the result of a call, and prove the same computation in a
   ZK VM afterwards.  Values are strings of bytes with an owner (L, F, P, or C
   for computed); m is a value in the MPC VM, z in the ZK VM, where the leader
   may have given another private input.  The follower accepts iff everything
   decoded in the one is what the other says.                                 *)
EXTENDS Integers, Sequences, Bitwise
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Cut(v, x) == SubSeq(v, x[2] + 1, x[2] + x[3])
Both(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
Flip(v, bit) == [v EXCEPT ![(bit % (8 * Len(v))) \div 8 + 1] = @ ^^ Pow2[(bit % 8) + 1]]
Fits(s, x) == x[2] + x[3] <= Len(s.vars[x[1]].m)
Start == [vars |-> <<>>, dec |-> <<>>, calls |-> 0, fin |-> FALSE]
(* dec: [x, run]: a run has happened since *)
Var(s, x) == s.vars[x[1]]
In(s, e) == [s EXCEPT !.vars = Append(@, [own |-> e.who, m |-> e.v, z |-> e.z, ok |-> e.commit])]
Call(s, o, e) ==
  LET a == Var(s, e.a)  b == Var(s, e.b)
      ok == a.ok /\ b.ok
      m == Both(Cut(a.m, e.a), Cut(b.m, e.b))
      n == IF ok THEN s.calls + 1 ELSE s.calls
  IN [s EXCEPT !.calls = n,
               !.vars = Append(@, [own |-> "C", ok |-> ok, z |-> Both(Cut(a.z, e.a), Cut(b.z, e.b)),
                                   m |-> IF ok /\ o.call = n THEN Flip(m, o.bit) ELSE m])]
Ran(s, fin) == [s EXCEPT !.dec = [k \in DOMAIN @ |-> [@[k] EXCEPT !.run = TRUE]], !.fin = fin]
(* -- what is known to whom -- *)
Told(s, k) == s.dec[k].run /\ Var(s, s.dec[k].x).ok
TwiceTold(s, k) == Told(s, k) /\ (s.fin \/ Var(s, s.dec[k].x).own \in {"L", "P"})
Covered(s, x, T(_, _)) == \A i \in x[2]..(x[2] + x[3] - 1) : \E k \in DOMAIN s.dec :
  LET y == s.dec[k].x IN T(s, k) /\ y[1] = x[1] /\ i \in y[2]..(y[2] + y[3] - 1)
Know(s, p, x) == LET v == Var(s, x) IN
  IF v.own \in {p, "P"} \/ Covered(s, x, Told) \/ (s.fin /\ v.own = "F") THEN Cut(v.m, x) ELSE <<>>
KnowZ(s, p, x) == LET v == Var(s, x) IN
  IF v.own \in {p, "P"} \/ Covered(s, x, TwiceTold) \/ (s.fin /\ v.own = "F") THEN Cut(v.z, x) ELSE <<>>
Whole(s, i) == <<i, 0, Len(s.vars[i].m)>>
Inputs(s) == SelectSeq([i \in DOMAIN s.vars |-> i], LAMBDA i : s.vars[i].own # "C")
Sees(s, p) == [d |-> [k \in DOMAIN s.dec |-> IF Told(s, k) THEN Cut(Var(s, s.dec[k].x).m, s.dec[k].x) ELSE <<>>],
               zd |-> [k \in DOMAIN s.dec |-> KnowZ(s, p, s.dec[k].x)],
               zi |-> [k \in DOMAIN Inputs(s) |-> KnowZ(s, p, Whole(s, Inputs(s)[k]))],
               mi |-> [k \in DOMAIN Inputs(s) |-> Know(s, p, Whole(s, Inputs(s)[k]))]]
(* everything decoded is what was proven *)
Agrees(s) == \A k \in DOMAIN s.dec : LET v == Var(s, s.dec[k].x) IN v.ok => Cut(v.m, s.dec[k].x) = Cut(v.z, s.dec[k].x)
(* -- one operation: state after it, answers of leader and follower -- *)
Act(s, o, e) ==
  CASE e.ev = "in" -> [s |-> In(s, e), l |-> "ok", f |-> "ok"]
    [] e.ev = "xor" -> IF Fits(s, e.a) /\ Fits(s, e.b) THEN [s |-> Call(s, o, e), l |-> "ok", f |-> "ok"] ELSE [s |-> s, l |-> "err", f |-> "err"]
    [] e.ev = "decode" -> IF Fits(s, e.x) THEN [s |-> [s EXCEPT !.dec = Append(@, [x |-> e.x, run |-> FALSE])], l |-> "ok", f |-> "ok"]
                          ELSE [s |-> s, l |-> "err", f |-> "err"]
    [] e.ev = "run" -> [s |-> Ran(s, FALSE), l |-> "ok", f |-> "ok"]
    [] e.ev = "finish" -> [s |-> Ran(s, TRUE), l |-> "ok", f |-> IF Agrees(s) THEN "ok" ELSE "err"]
Match(r, e) ==
  /\ e.out.l = r.l /\ e.out.f = r.f
  /\ e.ev \in {"run", "finish"} => e.out.sl = Sees(r.s, "L") /\ e.out.sf = Sees(r.s, "F")
  \* nothing is proven before the end, where the follower's inputs are told
  /\ e.out.zc = (IF r.s.fin THEN r.s.calls ELSE 0)
=============================================================================
