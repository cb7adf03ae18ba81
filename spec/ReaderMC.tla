------------------------------ MODULE ReaderMC -------------------------------
EXTENDS Reader, TLC, Json
CONSTANTS MaxOps
Bufs == {<<>>, <<1>>, <<0, 2, 9>>, <<2, 7, 8, 0, 0>>, <<0, 0, 2, 1, 2, 3>>, <<3, 1, 2, 3, 0, 4, 1, 2, 3, 4>>, <<0, 0, 4, 1, 2, 3, 4, 255, 255>>,
         <<0, 0, 5, 1, 2, 3, 4, 5, 1>>}
Ops == {<<"take", n>> : n \in {0, 1, 2, 5, 9, 2000000001}} \cup {<<"sub", n>> : n \in {0, 2, 4}} \cup {<<"rest", 0>>}
       \cup {<<"int", n>> : n \in {1, 2, 3, 4, 8}} \cup {<<v, w>> : v \in {"vec8", "vec16", "vec24"}, w \in {1, 2}}
VARIABLES st, out, hist
vars == <<st, out, hist>>
Init == \E b \in Bufs : st = InitSt(b) /\ out = Out(TRUE, <<>>, InitSt(b)) /\ hist = <<>>
Next == ~st.dead /\ Len(hist) < MaxOps /\ \E o \in Ops :
          LET r == ReaderRes(st, o[1], o[2]) IN
          st' = r.st /\ out' = r.out /\ hist' = Append(hist, [op |-> o[1], n |-> o[2]])
Spec == Init /\ [][Next]_vars
Conserved == out.left + out.used = Len(st.buf) \/ st.dead
InBounds == st.o <= Len(st.buf)
Monotone == [][st'.o >= st.o]_vars
FailKeeps == [][~out'.some => st'.o = st.o]_vars
Emit == PrintT("SCN " \o ToJson([buf |-> st.buf, ops |-> hist']))
View == <<st, out>>
==============================================================================
