----------------------------- MODULE DeframerMC -----------------------------
(* Exhaustive model: every stream over a small alphabet of segments, every    *)
(* chunking, at scaled-down sizes; or (Gen) real sizes with boundary chunks.   *)
EXTENDS Deframer, TLC, Json
CONSTANTS Streams, Gen, MaxOps
VARIABLES st, out, frames, hist
vars == <<st, out, frames, hist>>

Remaining == Total(st.str, Len(st.str)) - st.sup
(* bytes still missing to complete segment st.i's header / whole segment *)
ToHdr == IF st.used < Hdr THEN Hdr - st.used ELSE 0
ToEnd == IF st.i <= Len(st.str) /\ Hdr + st.str[st.i].len > st.used
           THEN Hdr + st.str[st.i].len - st.used ELSE 0
Chunks == IF ~Gen THEN 0..Remaining
          ELSE {c \in {0, 1, ToHdr - 1, ToHdr, ToHdr + 1, ToEnd - 1, ToEnd, ToEnd + 1, ToEnd + Hdr, Remaining}
                  \cup {IF st.i < Len(st.str) THEN ToEnd + SegSize(st.str[st.i + 1]) + 3 ELSE 1} :
                c >= 0 /\ c <= Remaining}

Init == /\ \E s \in Streams : st = InitSt(s)
        /\ out = [res |-> "init", got |-> 0, fr |-> <<>>, desync |-> FALSE, pend |-> FALSE]
        /\ frames = <<>> /\ hist = <<>>

Emit(op) == hist' = IF Gen THEN Append(hist, op) ELSE hist

Read(n) == LET r == ReadRes(st, n) IN
   /\ st' = r.st /\ out' = r.out /\ frames' = frames \o r.out.fr
   /\ Emit([op |-> "read", n |-> n])
Pop == /\ st.queued > 0
       /\ LET r == PopRes(st, 1) IN st' = r.st /\ out' = r.out
       /\ UNCHANGED frames /\ Emit([op |-> "pop", n |-> 1])
Fail == /\ LET r == ErrRes(st, "io") IN st' = r.st /\ out' = r.out
        /\ UNCHANGED frames /\ Emit([op |-> "err", n |-> 0])
Next == (\E n \in Chunks : Read(n)) \/ Pop \/ Fail
Spec == Init /\ [][Next]_vars

(* Chunk independence: frames and the verdict depend only on bytes supplied.  *)
ChunkIndependent ==
  LET id == Ideal(st.str, 1, st.sup) IN
    /\ Len(frames) = id.n
    /\ \A k \in 1..id.n : frames[k] = Frame(st.str[k])
    /\ st.desync = id.bad
NeverOverfull == st.used <= MaxWire
(* A frame comes out as soon as it is complete; nothing legal is ever stuck.  *)
Progress == (~st.desync /\ Remaining > 0) => st.used < MaxWire
OnlyLegal == \A k \in 1..Len(frames) : LegalLength(frames[k]) /\ LegalType(frames[k]) /\ LegalVersion(frames[k])
Sticky == [][st.desync => (st'.desync /\ frames' = frames)]_vars
NoLoss == [][frames' = frames \/ SubSeq(frames', 1, Len(frames)) = frames]_vars

View == <<st, frames>>
Bounded == Gen => Len(hist) <= MaxOps
EmitScn == IF Gen /\ Len(hist') <= MaxOps THEN PrintT("SCN " \o ToJson([str |-> st.str, ops |-> hist'])) ELSE TRUE

(* ---- constant values ---- *)
SmallSegs == {[t |-> 22, vh |-> 3, vl |-> 3, len |-> 1, body |-> 1, dig |-> 1],
              [t |-> 22, vh |-> 3, vl |-> 3, len |-> 3, body |-> 3, dig |-> 2],
              [t |-> 23, vh |-> 3, vl |-> 3, len |-> 0, body |-> 0, dig |-> 0],
              [t |-> 21, vh |-> 3, vl |-> 1, len |-> 0, body |-> 0, dig |-> 0],
              [t |-> 99, vh |-> 3, vl |-> 3, len |-> 1, body |-> 1, dig |-> 1],
              [t |-> 22, vh |-> 5, vl |-> 3, len |-> 1, body |-> 1, dig |-> 1],
              [t |-> 22, vh |-> 3, vl |-> 3, len |-> 4, body |-> 4, dig |-> 3],
              [t |-> 22, vh |-> 3, vl |-> 3, len |-> 3, body |-> 1, dig |-> 4]}
\* a truncated segment can only be last
SmallStreams == {s \in UNION {[1..k -> SmallSegs] : k \in 1..4} :
                   \A j \in 1..(Len(s) - 1) : s[j].body = s[j].len}
SmallStreams3 == {s \in SmallStreams : Len(s) <= 3}

S(t, v, l, d) == [t |-> t, vh |-> 3, vl |-> v, len |-> l, body |-> l, dig |-> d]
GenStreams == {
  <<S(22, 3, 7, 1), S(20, 3, 1, 2), S(23, 3, 0, 0)>>,
  <<S(21, 1, 2, 1), S(21, 3, 0, 0), S(22, 3, 4, 3)>>,
  <<S(23, 3, 18431, 1), S(22, 3, 1, 2)>>,
  <<S(22, 3, 16384, 1), S(23, 3, 18431, 2)>>,
  <<S(23, 3, 18430, 1), S(23, 3, 18431, 2), S(21, 4, 2, 3)>>,
  <<S(22, 3, 5, 1), S(23, 3, 18432, 2)>>,
  <<S(22, 0, 5, 1), [S(22, 3, 5, 2) EXCEPT !.vh = 2, !.vl = 9], S(22, 3, 5, 2)>>,
  <<S(22, 0, 5, 1), [S(22, 3, 5, 2) EXCEPT !.vh = 2, !.vl = 0], S(22, 3, 5, 2)>>,
  <<S(22, 3, 5, 1), [S(23, 3, 5, 2) EXCEPT !.vh = 254, !.vl = 253]>>,
  <<[S(23, 3, 5, 2) EXCEPT !.vh = 254, !.vl = 255]>>,
  <<S(22, 0, 5, 1), S(19, 3, 5, 2)>>,
  <<S(24, 255, 5, 1), S(25, 3, 5, 2)>>,
  <<[S(23, 3, 18431, 1) EXCEPT !.body = 18430]>>,
  <<S(22, 3, 3, 1), S(23, 3, 65535, 1)>> }
=============================================================================
