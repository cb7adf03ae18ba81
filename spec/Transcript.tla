------------------------------ MODULE Transcript ----------------------------
(* Application data of a connection, the parts of it that are disclosed, and     *)
(* what a serialised partial transcript carries.                                 *)
(*  t  = [s, r]           bytes sent and received                                *)
(*  p  = [s, r, sa, ra]   bytes and the sets of authenticated positions (from 0) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Idx(rs) == UNION {rs[q][1]..(rs[q][2] - 1) : q \in 1..Len(rs)}
Asc(S) == SetToSortSeq(S, <)
End(S) == IF S = {} THEN 0 ELSE 1 + CHOOSE m \in S : \A x \in S : x <= m
At(b, S) == LET a == Asc(S) IN [q \in 1..Len(a) |-> b[a[q] + 1]]
All(b) == 0..(Len(b) - 1)
Keep(b, S) == [q \in 1..Len(b) |-> IF (q - 1) \in S THEN b[q] ELSE 0]
Zero(n) == [q \in 1..n |-> 0]
In(b, S) == End(S) <= Len(b)
(* the k-th byte of data goes to the k-th position of S                           *)
Put(b, S, data) == LET a == Asc(S) IN
                   [q \in 1..Len(b) |-> IF (q - 1) \in S THEN data[CHOOSE k \in 1..Len(a) : a[k] = q - 1] ELSE b[q]]
Partial(t, S, R) == [s |-> Keep(t.s, S), r |-> Keep(t.r, R), sa |-> S, ra |-> R]
Merge(b, A, c, B) == [q \in 1..Len(b) |-> IF (q - 1) \in B \ A THEN c[q] ELSE b[q]]
Fill(b, S, v) == [q \in 1..Len(b) |-> IF (q - 1) \in S THEN v ELSE b[q]]
Obs(p) == [s |-> p.s, r |-> p.r, sa |-> Asc(p.sa), ra |-> Asc(p.ra),
           su |-> Asc(All(p.s) \ p.sa), ru |-> Asc(All(p.r) \ p.ra),
           si |-> At(p.s, p.sa), ri |-> At(p.r, p.ra),
           full |-> (p.sa = All(p.s) /\ p.ra = All(p.r))]
(* the compressed form: nothing but authenticated bytes                            *)
Packed(p) == [s |-> At(p.s, p.sa), r |-> At(p.r, p.ra), sa |-> Asc(p.sa), ra |-> Asc(p.ra),
              sn |-> Len(p.s), rn |-> Len(p.r)]
PackOk(e) == LET S == Idx(e.sx) R == Idx(e.rx) IN
             /\ Len(e.s) = Cardinality(S) /\ Len(e.r) = Cardinality(R)
             /\ End(S) <= e.sn /\ End(R) <= e.rn
Unpack(e) == LET S == Idx(e.sx) R == Idx(e.rx) IN
             [s |-> Put(Zero(e.sn), S, e.s), r |-> Put(Zero(e.rn), R, e.r), sa |-> S, ra |-> R]
Panic == [panic |-> TRUE]
Bad == [bad |-> TRUE]
Side(p, d) == IF d = "s" THEN p.s ELSE p.r
Auth(p, d) == IF d = "s" THEN p.sa ELSE p.ra
(* one operation: the state after it and what it shows                             *)
Same(st, o) == [st |-> st, out |-> o]
To(st, p) == [st |-> [st EXCEPT !.p = p], out |-> Obs(p)]
Start(e) == [st |-> [t |-> [s |-> e.s, r |-> e.r], p |-> [s |-> <<>>, r |-> <<>>, sa |-> {}, ra |-> {}]],
             out |-> [s |-> e.s, r |-> e.r, n |-> <<Len(e.s), Len(e.r)>>]]
Do(st, e) ==
  CASE e.op = "get" ->
         LET b == Side(st.t, e.d) S == Idx(e.x) IN
         Same(st, IF In(b, S) THEN [x |-> Asc(S), data |-> At(b, S), n |-> Cardinality(S)] ELSE Bad)
    [] e.op = "partial" ->
         IF In(st.t.s, Idx(e.sx)) /\ In(st.t.r, Idx(e.rx)) THEN To(st, Partial(st.t, Idx(e.sx), Idx(e.rx)))
         ELSE Same(st, Panic)
    [] e.op = "new" -> To(st, [s |-> Zero(e.sn), r |-> Zero(e.rn), sa |-> {}, ra |-> {}])
    [] e.op = "contains" -> Same(st, [yes |-> In(Side(st.p, e.d), Idx(e.x))])
    [] e.op = "union" ->
         LET o == Partial([s |-> e.s, r |-> e.r], Idx(e.sx), Idx(e.rx)) p == st.p IN
         IF Len(e.s) # Len(p.s) \/ Len(e.r) # Len(p.r) THEN Same(st, Panic)
         ELSE To(st, [s |-> Merge(p.s, p.sa, o.s, o.sa), r |-> Merge(p.r, p.ra, o.r, o.ra),
                      sa |-> p.sa \cup o.sa, ra |-> p.ra \cup o.ra])
    [] e.op = "put" ->
         LET S == Idx(e.x) p == st.p IN
         IF Cardinality(S) # Len(e.data) THEN Same(st, Bad)
         ELSE IF ~In(Side(p, e.d), S) THEN Same(st, Panic)
         ELSE IF e.d = "s" THEN To(st, [p EXCEPT !.s = Put(p.s, S, e.data), !.sa = @ \cup S])
         ELSE To(st, [p EXCEPT !.r = Put(p.r, S, e.data), !.ra = @ \cup S])
    [] e.op = "fill" -> LET p == st.p IN
         To(st, [p EXCEPT !.s = Fill(p.s, All(p.s) \ p.sa, e.v), !.r = Fill(p.r, All(p.r) \ p.ra, e.v)])
    [] e.op = "fillr" -> LET p == st.p S == Idx(<<e.x>>) IN
         IF e.d = "s" THEN To(st, [p EXCEPT !.s = Fill(p.s, S \ p.sa, e.v)])
         ELSE To(st, [p EXCEPT !.r = Fill(p.r, S \ p.ra, e.v)])
    [] e.op = "wire" -> [st |-> [st EXCEPT !.p = [@ EXCEPT !.s = Keep(@, st.p.sa), !.r = Keep(@, st.p.ra)]],
                         out |-> [wire |-> Packed(st.p),
                                  back |-> Obs([st.p EXCEPT !.s = Keep(@, st.p.sa), !.r = Keep(@, st.p.ra)])]]
    [] e.op = "unwire" -> IF PackOk(e) THEN To(st, Unpack(e)) ELSE Same(st, Bad)
    [] e.op = "seq" -> Same(st, IF Len(e.data) = Cardinality(Idx(e.x)) THEN [x |-> Asc(Idx(e.x)), data |-> e.data, n |-> Len(e.data)] ELSE Bad)
==============================================================================
