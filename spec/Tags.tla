-------------------------------- MODULE Tags --------------------------------
(* The proof of the tags of received records.  Each record is the sealing of
   some data, or deviates from it in one part; records may trade parts.  The
   tags prove iff every record is what the server sealed; order and number do
   not matter, a record carries its own sequence number.                      *)
EXTENDS Integers, Sequences
\* refused before anything is run: there is no such AES block
Refused(e) == \E k \in DOMAIN e.recs : e.recs[k].dev \in {"shortnonce", "longnonce"}
\* a deviation that changes nothing
Idle(r) == r.dev = "none" \/ (r.dev = "typ" /\ r.i = r.typ) \/ (r.dev \in {"data", "cut"} /\ r.len = 0)
Alone(e) == Len(e.recs) < 2
Trades(e) == /\ ~Alone(e)
             /\ \/ e.all \in {"swaptag", "swapnonce"}
                \/ e.all = "swapdata" /\ (e.recs[1].len > 0 \/ e.recs[Len(e.recs)].len > 0)
True(e) == (\A k \in DOMAIN e.recs : Idle(e.recs[k])) /\ ~Trades(e)
           /\ (e.ver = "1.2" \/ e.recs = <<>>)
Exp(e) == IF Refused(e) THEN [p |-> "refused", v |-> "refused", key |-> FALSE]
          ELSE [p |-> "ok", v |-> IF True(e) THEN "ok" ELSE "bad", key |-> FALSE]
Ok(e) == e.out = Exp(e)
=============================================================================
