------------------------------- MODULE Record --------------------------------
(* One TLS record: header rules, classification of its payload, and the         *)
(* conversions between opaque, plain and typed messages.                        *)
EXTENDS Wire

MaxLen == 16384 + 2048
Seg(b) == [t |-> b[1], vh |-> b[2], vl |-> b[3], len |-> Int2(b, 4)]
(* Reads a record off the front of b.                                           *)
ReadRec(b) ==
  LET none(r) == [res |-> r, used |-> 0, enc |-> FALSE] IN
  IF Len(b) < 5 THEN none("short-header")
  ELSE LET s == Seg(b) IN
       IF (s.t # 23 /\ s.len = 0) \/ s.len >= MaxLen THEN none("length")
       ELSE IF s.t \notin 20..24 THEN none("type")
       ELSE IF s.vh # 3 THEN none("version")
       ELSE IF Len(b) < 5 + s.len THEN none("short-body")
       ELSE [res |-> "ok", used |-> 5 + s.len, enc |-> TRUE]   \* enc: re-encodes to the bytes read

(* What a payload of content type t at version v is.                            *)
KeyUpdateBytes == <<24, 0, 0, 1, 0>>
PayloadKind(t, v, p) ==
  CASE t = 23 -> [ok |-> TRUE, kind |-> 23, hs |-> -1]
    [] t = 21 -> IF Len(p) = 2 THEN [ok |-> TRUE, kind |-> 21, hs |-> -1] ELSE [ok |-> FALSE, kind |-> t, hs |-> -1]
    [] t = 20 -> IF p = <<1>> THEN [ok |-> TRUE, kind |-> 20, hs |-> -1] ELSE [ok |-> FALSE, kind |-> t, hs |-> -1]
    [] t = 22 -> LET m == Message(p, v) IN
                 IF m.ok /\ m.used = Len(p) THEN [ok |-> TRUE, kind |-> 22, hs |-> m.tt]
                 ELSE [ok |-> FALSE, kind |-> t, hs |-> -1]
    [] OTHER -> [ok |-> FALSE, kind |-> t, hs |-> -1]       \* kind: the type the error names
(* Typed and back: same type, version and bytes. *)
PayloadRes(e) == LET k == PayloadKind(e.t, e.v, e.p) IN
                 [ok |-> k.ok, kind |-> k.kind, hs |-> k.hs, back |-> k.ok]

Hd(t, v, n) == <<t, v \div 256, v % 256, n \div 256, n % 256>>
BuildRes(e) ==
  CASE e.what = "alert"  -> [b |-> Hd(21, 771, 2) \o <<e.x, e.y>>]
    [] e.what = "keyupdate" -> [b |-> Hd(22, 772, 5) \o KeyUpdateBytes]
    [] e.what = "hash" -> [b |-> <<254, 0, Len(e.p) \div 256, Len(e.p) % 256>> \o e.p]
    [] e.what = "plain" -> [b |-> Hd(e.x, e.y, Len(e.p)) \o e.p]   \* encode(unencrypted record)
    [] e.what = "maxwire" -> [b |-> <<MaxLen + 5>>]
(* A header breaking several rules may be reported as breaking any of them.     *)
Broken(s) == (IF (s.t # 23 /\ s.len = 0) \/ s.len >= MaxLen THEN {"length"} ELSE {})
             \cup (IF s.t \notin 20..24 THEN {"type"} ELSE {}) \cup (IF s.vh # 3 THEN {"version"} ELSE {})
RecRes(e) == CASE e.ev = "rec" -> ReadRec(e.b) [] e.ev = "pay" -> PayloadRes(e) [] e.ev = "build" -> BuildRes(e)
Allowed(e) == IF e.ev = "rec" /\ RecRes(e).res \in {"length", "type", "version"}
              THEN {[res |-> x, used |-> 0, enc |-> FALSE] : x \in Broken(Seg(e.b))} ELSE {RecRes(e)}
==============================================================================
