-------------------------------- MODULE Proxy -------------------------------
(* A prover of its own making on a connection the verifier proxies.  The
   verifier holds what passed, if that is a handshake of the supported kind
   which the Finished messages of both sides confirm under the prover's secret,
   with records the server sealed; otherwise it ends with an error.  Nothing
   else is asked of the prover.

   A prover writes ClientHello, ClientKeyExchange, ChangeCipherSpec, Finished,
   a record per entry of e.app, and a close_notify if e.end = "alert".  At its
   record e.rec it does e.op and falls silent.  The server's records 0-3 are its
   handshake, 4 its ChangeCipherSpec, 5 its Finished; it leaves after e.cut of
   them, and one (e.flip) is altered on its way.                              *)
EXTENDS Integers, Sequences, FiniteSets
First == 4                                     \* records before the application's
Own(e) == First + Len(e.app) + (IF e.end = "alert" THEN 1 ELSE 0)
Acts(e) == e.op # "none" /\ e.rec \in 0..(Own(e) - 1)
InHandshake(e) == Acts(e) /\ e.rec < First
\* the server had the Finished message it expected
Lets == {"dup", "stop"}
Shaken(e) == /\ e.suites = "ok"
             /\ e.cut \notin 0..5 /\ e.flip \notin {0, 1, 2, 3, 5}
             /\ (InHandshake(e) => e.rec = 3 /\ e.op \in Lets)
\* what is not a record with room for nonce and tag, or no record
Malformed == {"half", "ccs", "short", "type", "huge", "noise"}
Garbled(e) == Acts(e) /\ e.op \in Malformed
Lies(e) == e.ms # "right" \/ e.view \in {"cr", "sr"}
Server(e) == 6 + Len(e.resp) + (IF e.bye THEN 1 ELSE 0)
Spoilt(e) == e.flip \in 6..(Server(e) - 1)
Faults(e) == (IF e.chain # "ok" THEN 1 ELSE 0) + (IF e.suites # "ok" THEN 1 ELSE 0) + (IF Acts(e) THEN 1 ELSE 0) + (IF e.ms # "right" THEN 1 ELSE 0)
             + (IF e.view # "same" THEN 1 ELSE 0) + (IF e.cut # -1 THEN 1 ELSE 0) + (IF e.flip # -1 THEN 1 ELSE 0)
\* (a bad record with nothing to follow may find the server gone before it is all passed on)
Exact(e) == Faults(e) < 2 /\ (Acts(e) => e.rec < First + Len(e.app) - (IF e.op = "drop" /\ e.end = "alert" THEN 1 ELSE 0)) /\ (e.flip = 4 => e.op = "none") /\ e.view \in {"same", "cr", "sr", "tag"}
Bad(e) == ~Shaken(e) \/ Lies(e)
\* it made up what it cannot decrypt
Unknown(e) == Acts(e) /\ e.op = "app"
Apps(q) == [k \in DOMAIN q |-> <<23, q[k]>>]
Sent(e) == <<<<22, 16>>>> \o Apps(e.app) \o (IF e.end = "alert" THEN <<<<21, 2>>>> ELSE <<>>)
Recv(e) == <<<<22, 16>>>> \o Apps(e.resp) \o (IF e.bye THEN <<<<21, 2>>>> ELSE <<>>)
Clean(e) == ~Acts(e) /\ e.cut = -1 /\ e.flip = -1
Exp(e) == [v |-> IF Bad(e) \/ Garbled(e) \/ Spoilt(e) THEN "err" ELSE "done",
           shown |-> IF e.chain # "ok" \/ Unknown(e) THEN "refused" ELSE "accepted", sent |-> Sent(e), recv |-> Recv(e)]
Ok(e) == LET o == e.out  x == Exp(e) IN
  /\ o.calm /\ o.over /\ o.same
  /\ o.p \in {"done", "err"} /\ o.v \in {"done", "err"}
  /\ (Bad(e) => o.v = "err")
  /\ (Exact(e) => o.v = x.v)
  /\ (o.v = "done" /\ Clean(e) => o.sent = x.sent /\ o.recv = x.recv)
  /\ (o.v = "err" => o.shown = "none")
  /\ (o.v = "done" /\ Exact(e) => o.p = "done" /\ o.shown = x.shown)
  /\ (o.v = "done" /\ o.p = "done" => o.shown \in {"accepted", "refused"})
  /\ (o.shown = "accepted" => e.chain = "ok")
=============================================================================
