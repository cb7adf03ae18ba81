---------------------------- MODULE FragmenterMC ----------------------------
EXTENDS Fragmenter, FiniteSets, TLC, Json
CONSTANTS Sizes, Lens, Gen
VARIABLES st, out, in, hist
vars == <<st, out, in, hist>>
Init == /\ st = InitSt /\ out = Out("ok", <<>>, 0) /\ in = 0 /\ hist = <<>>
H(op, n) == hist' = Append(hist, [op |-> op, n |-> n])
Do(r, n) == st' = r.st /\ out' = r.out /\ in' = n
Next == /\ Len(hist) < 3
        /\ \/ \E s \in Sizes : ~st.live /\ Do(NewRes(st, s), 0) /\ H("new", s)
           \/ \E s \in Sizes : st.live /\ Do(SetRes(st, s), 0) /\ H("set", s)
           \/ \E n \in Lens : st.live /\ Do(FragRes(st, n, n), n) /\ H("frag", n)
           \/ \E n \in Lens : st.live /\ Do(BorrowRes(st, n, n), n) /\ H("borrow", n)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Bounded == \A k \in 1..Len(out.lens) : out.lens[k] <= st.max /\ (in > 0 => out.lens[k] > 0)
Complete == out.res = "ok" /\ in > 0 => Sum(out.lens) = in
Tight == \A k \in 1..Len(out.lens) : k < Len(out.lens) => out.lens[k] = st.max
Positive == st.live => st.max > 0 /\ st.max <= MaxFrag
View == <<st, out, in, Len(hist)>>
EmitScn == IF Gen THEN PrintT("SCN " \o ToJson([ops |-> hist'])) ELSE TRUE
SmallSizes == -1..14
SmallLens == 0..30
RealSizes == {-1, 0, 1, 5, 6, 31, 32, 33, 37, 1024, 16388, 16389, 16390, 20000}
RealLens == {0, 1, 26, 27, 28, 31, 32, 54, 55, 1018, 1019, 1020, 2038, 16383, 16384, 16385, 32768, 40000}
=============================================================================
