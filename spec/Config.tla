------------------------------- MODULE Config -------------------------------
(* Configurations agreed on between prover and verifier, and the connection types *)
(* of the core crate.                                                             *)
EXTENDS Names, TLC
(* ---- MPC-TLS: a sequence of settings, the last of each kind counts ---- *)
Fields == {"sent", "srec", "online", "recv", "rrec", "defer", "net"}
Set(ops, f) == \E q \in DOMAIN ops : ops[q].f = f
Last(ops, f) == ops[CHOOSE q \in DOMAIN ops : ops[q].f = f /\ \A p \in DOMAIN ops : ops[p].f = f => p <= q].v
Or(ops, f, d) == IF Set(ops, f) THEN Last(ops, f) ELSE d
Opt(ops, f) == IF Set(ops, f) THEN <<Last(ops, f)>> ELSE <<>>
No == [ok |-> FALSE]
Values(ops) == [ok |-> TRUE, sent |-> Last(ops, "sent"), srec |-> Opt(ops, "srec"), online |-> Or(ops, "online", 32), recv |-> Last(ops, "recv"),
                rrec |-> Opt(ops, "rrec"), defer |-> Or(ops, "defer", 1), net |-> Or(ops, "net", 1)]
(* the online part is part of what can be received                                *)
Legal(v) == v.online <= v.recv
Mpc(ops) == IF ~Set(ops, "sent") \/ ~Set(ops, "recv") THEN No
            ELSE IF Legal(Values(ops)) THEN Values(ops) ELSE No
(* what comes over the wire obeys the same rule                                    *)
Wire(ops) == IF Legal(Values(ops)) THEN Values(ops) ELSE No

Ver(v) == CASE v = 771 -> "12" [] v = 772 -> "13" [] OTHER -> ""
CType(t) == CASE t = 20 -> "ChangeCipherSpec" [] t = 21 -> "Alert" [] t = 22 -> "Handshake" [] t = 23 -> "ApplicationData" [] t = 24 -> "Heartbeat" [] OTHER -> "Unknown"
CfgExp(e) ==
  CASE e.ev = "mpc" -> LET x == Mpc(e.ops) IN [built |-> x, wired |-> IF x.ok THEN x ELSE No]
    [] e.ev = "mpcwire" -> Wire(e.ops)
    [] e.ev = "client" -> IF e.name # "" /\ e.roots >= 0 THEN [ok |-> TRUE, name |-> e.name, roots |-> e.roots, auth |-> e.auth] ELSE No
    [] e.ev = "verifier" -> IF e.roots >= 0 THEN [ok |-> TRUE, roots |-> e.roots] ELSE No
    [] e.ev = "proxy" -> IF e.name # "" THEN [ok |-> TRUE, name |-> e.name] ELSE No
    [] e.ev = "name" -> IF DnsOk(e.b) THEN [ok |-> TRUE, str |-> e.b, wire |-> TRUE] ELSE [ok |-> FALSE, wire |-> FALSE]
    [] e.ev = "version" -> [v |-> Ver(e.v)]
    [] e.ev = "group" -> IF e.g = 23 THEN [ok |-> TRUE, key |-> e.key] ELSE No
    [] e.ev = "algs" -> [same |-> e.names]
    [] e.ev = "ctype" -> [name |-> CType(e.t), back |-> e.t]
CfgOk(e) == e.out = CfgExp(e)
==============================================================================
