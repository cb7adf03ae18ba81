------------------------------- MODULE MpcConf -------------------------------
(* What MPC-TLS is configured to afford: application data as asked for and 32
   bytes each way for the protocol's own messages, in records enough. *)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
Records(n) == 2 + 8 + (Max(n - 4096, 0) + 4095) \div 4096
Or(v, d) == IF v < 0 THEN d ELSE v
Exp(e) == IF e.sent < 0 \/ e.on < 0 \/ e.recv < 0 \/ e.on > e.recv THEN [r |-> "err"]
          ELSE [r |-> "ok", sent |-> e.sent + 32, on |-> e.on + 32, recv |-> e.recv + 32, sr |-> Or(e.sr, Records(e.sent + 32)), rr |-> Or(e.rr, Records(e.on + 32)),
                defer |-> e.defer # 0, low |-> e.low >= 0]
Ok(e) == e.out = Exp(e)
=============================================================================
