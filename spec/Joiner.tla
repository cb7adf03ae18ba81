------------------------------- MODULE Joiner -------------------------------
(* Reassembly of handshake messages from handshake records (tls-core,        *)
(* HandshakeJoiner).  The handshake byte stream is a sequence of messages     *)
(* [t, len, body]; a record carries the next n bytes of that stream.          *)
EXTENDS Naturals, Sequences

CONSTANTS MaxHs   \* largest accepted message body (2^16 - 1)
HsHdr == 4

(* Which bodies are well formed, for the message types the runs use.          *)
BodyOk(m) == CASE m.t \in {14, 5} -> m.len = 0          \* ServerHelloDone, EndOfEarlyData
               [] m.t \in {6, 254} -> FALSE             \* not legal on the wire
               [] m.t = 24 -> m.len = 1                 \* KeyUpdate
               [] OTHER -> TRUE                         \* opaque bodies

MsgSize(m) == HsHdr + m.body
RECURSIVE Total(_, _)
Total(ms, k) == IF k = 0 THEN 0 ELSE Total(ms, k - 1) + MsgSize(ms[k])

(* Splits whole messages off the front of a buffer that starts at message i   *)
(* and holds `used` bytes.  A too large or malformed message stays in front.  *)
RECURSIVE Drain(_, _, _, _, _)
Drain(ms, i, used, v, fr) ==
  IF i > Len(ms) \/ used < HsHdr THEN [i |-> i, used |-> used, fr |-> fr, bad |-> FALSE]
  ELSE IF ms[i].len > MaxHs THEN [i |-> i, used |-> used, fr |-> fr, bad |-> TRUE]
  ELSE IF used < HsHdr + ms[i].len THEN [i |-> i, used |-> used, fr |-> fr, bad |-> FALSE]
  ELSE IF ~BodyOk(ms[i]) THEN [i |-> i, used |-> used, fr |-> fr, bad |-> TRUE]
  ELSE Drain(ms, i + 1, used - HsHdr - ms[i].len, v,
             Append(fr, [t |-> ms[i].t, len |-> ms[i].len, dig |-> ms[i].dig, v |-> v]))

InitSt(ms) == [ms |-> ms, i |-> 1, used |-> 0, sup |-> 0]

TakeRes(st, n, v) ==
  LET d == Drain(st.ms, st.i, st.used + n, v, <<>>) IN
  [st |-> [st EXCEPT !.i = d.i, !.used = d.used, !.sup = @ + n],
   out |-> [res |-> IF d.bad THEN "corrupt" ELSE "ok",
            count |-> IF d.bad THEN 0 ELSE Len(d.fr), fr |-> d.fr, empty |-> d.used = 0]]

WantRes(st, ct) == [st |-> st, out |-> [res |-> IF ct = 22 THEN "yes" ELSE "no", count |-> 0, fr |-> <<>>, empty |-> st.used = 0]]

(* Independent definition: messages out after sup bytes of the stream.        *)
RECURSIVE Ideal(_, _, _)
Ideal(ms, i, sup) ==
  IF i > Len(ms) \/ sup < HsHdr THEN [n |-> i - 1, bad |-> FALSE, rest |-> sup]
  ELSE IF ms[i].len > MaxHs THEN [n |-> i - 1, bad |-> TRUE, rest |-> sup]
  ELSE IF sup < HsHdr + ms[i].len THEN [n |-> i - 1, bad |-> FALSE, rest |-> sup]
  ELSE IF ~BodyOk(ms[i]) THEN [n |-> i - 1, bad |-> TRUE, rest |-> sup]
  ELSE Ideal(ms, i + 1, sup - HsHdr - ms[i].len)
=============================================================================
