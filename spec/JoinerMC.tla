------------------------------ MODULE JoinerMC ------------------------------
EXTENDS Joiner, TLC, Json
CONSTANTS Streams, Gen, MaxOps
VARIABLES st, out, frames, dead, hist
vars == <<st, out, frames, dead, hist>>
Remaining == Total(st.ms, Len(st.ms)) - st.sup
ToHdr == IF st.used < HsHdr THEN HsHdr - st.used ELSE 0
ToEnd == IF st.i <= Len(st.ms) /\ HsHdr + st.ms[st.i].len > st.used THEN HsHdr + st.ms[st.i].len - st.used ELSE 0
MinR(a, b) == IF a < b THEN a ELSE b
Chunks == IF ~Gen THEN 0..Remaining
          ELSE {MinR(c, MinR(Remaining, 16384)) : c \in {0, 1, ToHdr, ToHdr + 1, ToEnd, ToEnd + 1, ToEnd + 3, ToEnd + 4, Remaining}
                  \cup {x \in {ToEnd - 1} : ToEnd > 0}}
Init == /\ \E s \in Streams : st = InitSt(s)
        /\ out = [res |-> "init"] /\ frames = <<>> /\ dead = FALSE /\ hist = <<>>
Take(n) == LET r == TakeRes(st, n, 771) IN
  /\ st' = r.st /\ out' = r.out /\ frames' = frames \o r.out.fr
  /\ dead' = (dead \/ r.out.res = "corrupt")
  /\ hist' = IF Gen THEN Append(hist, n) ELSE hist
Next == \E n \in Chunks : Take(n)
Spec == Init /\ [][Next]_vars
SplitIndependent == LET id == Ideal(st.ms, 1, st.sup) IN
  /\ Len(frames) = id.n /\ dead = id.bad
  /\ \A k \in 1..id.n : frames[k].t = st.ms[k].t /\ frames[k].len = st.ms[k].len /\ frames[k].dig = st.ms[k].dig
  /\ (out.res # "init" => out.empty = (id.rest = 0))
Sticky == [][dead => (dead' /\ frames' = frames)]_vars
Bounded == Len(hist) <= MaxOps
View == <<st, frames, dead>>
EmitScn == IF Gen /\ Len(hist') <= MaxOps THEN PrintT("SCN " \o ToJson([ms |-> st.ms, ops |-> hist'])) ELSE TRUE
M(t, l, d) == [t |-> t, len |-> l, body |-> l, dig |-> d]
SmallMsgs == {M(20, 0, 1), M(20, 2, 2), M(14, 0, 3), M(14, 1, 4), M(6, 1, 5), M(16, 4, 6), M(20, 3, 7), [M(20, 3, 8) EXCEPT !.body = 1]}
SmallStreams == {s \in UNION {[1..k -> SmallMsgs] : k \in 1..3} : \A j \in 1..(Len(s) - 1) : s[j].body = s[j].len}
GenStreams == {<<M(20, 12, 1), M(14, 0, 2), M(16, 3, 3)>>, <<M(0, 0, 1), M(0, 5, 2), M(99, 1, 3), M(6, 2, 4)>>,
  <<M(14, 0, 1), M(14, 1, 2), M(20, 4, 3)>>, <<M(12, 65535, 1), M(5, 0, 2)>>, <<M(20, 4, 1), M(12, 65536, 2)>>,
  <<M(24, 1, 1), M(24, 2, 2)>>, <<M(20, 12, 1), M(254, 0, 2)>>, <<M(16, 16384, 1), M(20, 16380, 2), M(20, 12, 3)>>,
  <<M(20, 0, 1), M(20, 0, 2), M(20, 1, 3), M(5, 1, 4)>>, <<M(12, 300, 1), [M(20, 16777215, 2) EXCEPT !.body = 10]>>}
=============================================================================
