------------------------------ MODULE Deframer ------------------------------
(* Reassembly of TLS records from a byte stream delivered in arbitrary       *)
(* pieces (tls-core, MessageDeframer and the record header grammar).         *)
(*                                                                           *)
(* The stream is a sequence of segments; a segment is one record header      *)
(* (type, version, length) followed by `body` bytes (body < len only for a   *)
(* truncated last segment).  The model state is the position of the buffer   *)
(* in that stream; the action is one read of at most n available bytes.      *)
EXTENDS Naturals, Sequences

CONSTANTS MaxPayload,   \* lengths >= MaxPayload are illegal (2^14 + 2^11)
          Hdr           \* header size (5)

MaxWire == MaxPayload + Hdr

KnownTypes == {20, 21, 22, 23, 24}
AppData == 23

(* The three record-header rules. *)
LegalLength(s)  == (s.len > 0 \/ s.t = AppData) /\ s.len < MaxPayload
LegalType(s)    == s.t \in KnownTypes
LegalVersion(s) == s.vh = 3
Legal(s) == LegalLength(s) /\ LegalType(s) /\ LegalVersion(s)

Frame(s) == [t |-> s.t, vh |-> s.vh, vl |-> s.vl, len |-> s.len, dig |-> s.dig]

Min2(a, b) == IF a < b THEN a ELSE b
SegSize(s) == Hdr + s.body

RECURSIVE Total(_, _)
Total(str, k) == IF k = 0 THEN 0 ELSE Total(str, k - 1) + SegSize(str[k])

(* What the buffer (starting at segment i, holding `used` bytes) turns into:  *)
(* whole frames are split off the front until it is partial or illegal.       *)
RECURSIVE Drain(_, _, _, _)
Drain(str, i, used, fr) ==
  IF i > Len(str) \/ used < Hdr THEN [i |-> i, used |-> used, fr |-> fr, bad |-> FALSE]
  ELSE IF ~Legal(str[i])        THEN [i |-> i, used |-> used, fr |-> fr, bad |-> TRUE]
  ELSE IF used < Hdr + str[i].len THEN [i |-> i, used |-> used, fr |-> fr, bad |-> FALSE]
  ELSE Drain(str, i + 1, used - Hdr - str[i].len, Append(fr, Frame(str[i])))

InitSt(str) == [str |-> str, i |-> 1, used |-> 0, sup |-> 0, queued |-> 0, desync |-> FALSE]

(* One read: the source has n bytes at hand; the deframer accepts at most the *)
(* free space of its buffer.                                                  *)
ReadRes(st, n) ==
  LET got == Min2(n, MaxWire - st.used)
      d == Drain(st.str, st.i, st.used + got, <<>>)
      q == st.queued + Len(d.fr)
      ds == st.desync \/ d.bad IN
  [st  |-> [st EXCEPT !.i = d.i, !.used = d.used, !.sup = @ + got, !.queued = q, !.desync = ds],
   out |-> [res |-> "ok", got |-> got, fr |-> d.fr, desync |-> ds, pend |-> (q > 0 \/ d.used > 0)]]

(* The source fails: nothing changes. *)
ErrRes(st, kind) ==
  [st |-> st, out |-> [res |-> kind, got |-> 0, fr |-> <<>>, desync |-> st.desync,
                       pend |-> (st.queued > 0 \/ st.used > 0)]]

(* The consumer takes up to k frames. *)
PopRes(st, k) ==
  LET q == st.queued - Min2(k, st.queued) IN
  [st |-> [st EXCEPT !.queued = q],
   out |-> [res |-> "ok", got |-> 0, fr |-> <<>>, desync |-> st.desync, pend |-> (q > 0 \/ st.used > 0)]]

(* ------------------------- the independent definition -------------------- *)
(* What must have come out after `sup` bytes, whatever the chunking.          *)
RECURSIVE Ideal(_, _, _)
Ideal(str, i, sup) ==
  IF i > Len(str) \/ sup < Hdr THEN [n |-> i - 1, bad |-> FALSE]
  ELSE IF ~Legal(str[i]) THEN [n |-> i - 1, bad |-> TRUE]
  ELSE IF sup < Hdr + str[i].len THEN [n |-> i - 1, bad |-> FALSE]
  ELSE Ideal(str, i + 1, sup - Hdr - str[i].len)
=============================================================================
