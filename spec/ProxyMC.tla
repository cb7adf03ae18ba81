------------------------------ MODULE ProxyMC -------------------------------
(* Every single deviation on connections of several shapes, and pairs of them. *)
EXTENDS Proxy, TLC, Json
CONSTANT Pairs
VARIABLE e
Shapes == {[ev |-> "new", seed |-> 11, chain |-> "ok", suites |-> "ok", op |-> "none", rec |-> -1, app |-> a, resp |-> r, bye |-> b, end |-> f,
            ms |-> "right", view |-> "same", cut |-> -1, flip |-> -1] : a \in {<<>>, <<1>>, <<16, 40>>}, r \in {<<>>, <<17>>, <<5, 1000>>}, b \in BOOLEAN, f \in {"alert", "eof"}}
Ops == {"flip", "dup", "drop", "stop", "half", "ccs", "short", "bare", "app", "hs", "type", "huge", "noise"}
Spoil(s) == {[s EXCEPT !.chain = c] : c \in {"name", "root", "old"}}
  \cup {[s EXCEPT !.suites = c] : c \in {"aes256", "chacha", "group", "p384", "tls13", "resumed"}}
  \cup {[s EXCEPT !.op = c, !.rec = k] : c \in Ops, k \in 0..(Own(s) - 1)}
  \cup {[s EXCEPT !.ms = c, !.seed = k] : c \in {"bit", "zero", "short"}, k \in {0, 47, 200}}
  \cup {[s EXCEPT !.view = c, !.seed = k] : c \in {"cr", "sr", "tag", "data"}, k \in {0, 31}}
  \cup {[s EXCEPT !.cut = k] : k \in 0..Server(s)} \cup {[s EXCEPT !.flip = k] : k \in 0..(Server(s) - 1)}
One == UNION {Spoil(s) : s \in Shapes}
Init == IF Pairs THEN \E s \in Shapes : s.end = "alert" /\ s.bye /\ Len(s.app) # 1 /\ s.resp # <<>> /\ \E t \in Spoil(s) : e \in Spoil(t)
        ELSE e \in Shapes \cup One
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == PrintT("SCN " \o ToJson(<<e>>))
\* the verifier believes a connection only under the secret of its handshake
Sound == Exp(e).v = "done" => e.ms = "right" /\ e.suites = "ok" /\ e.cut \notin 0..5 /\ e.flip \notin {0, 1, 2, 3, 5} /\ ~Spoilt(e)
=============================================================================
