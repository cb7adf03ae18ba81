------------------------------- MODULE HttpMC -------------------------------
EXTENDS Http, Json, TLC
CONSTANT What
G(p, q, a, m, t, c, h, w) == [ev |-> "get", path |-> p, q |-> q, auth |-> a, method |-> m, tls |-> t, ca |-> c, host |-> h, twice |-> w]
P(k, f, n) == [k |-> k, form |-> f, n |-> n]
Paths == Known \cup {"/nope", "/formats"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Auths == {"token", "bearer", "prefix", "suffix", "case", "bearerbad", "basic", "nospace", "empty", "bytes", "listed", "listing", "lower"}
GetCases ==
  {G(p, <<>>, <<>>, m, t, c, "good", FALSE) : p \in Paths, m \in {"GET", "HEAD", "POST"}, t \in {12, 13}, c \in {"none", "good"}}
  \cup {G(p, <<P("size", f, n)>>, <<>>, "GET", 0, "none", "good", FALSE) : p \in {"/bytes", "/formats/json", "/"},
         f \in {"num", "word", "neg", "bare", "huge", "pct", "zeros", "spaced", "none"}, n \in {0, 1, 2, 4, 8, 1000, 65536}}
  \cup {G(p, <<P("size", "num", n), P(k, f, m)>>, <<>>, "GET", 12, "none", "good", FALSE) : p \in {"/bytes", "/formats/json"}, n, m \in {1, 4, 8}, k \in {"size", "x"}, f \in {"num", "word"}}
  \cup {G(p, q \o <<P("shutdown", "bare", 1)>>, <<>>, m, 0, "none", "good", FALSE) : p \in Known, q \in {<<>>, <<P("size", "num", 4)>>}, m \in {"GET", "POST"}}
  \cup {G(p, <<>>, a, "GET", 0, "none", "good", FALSE) : p \in {"/protected", "/elster", "/"}, a \in Seqs(Auths, 1)}
  \cup {G(p, <<>>, <<a, b>>, "GET", 0, "none", "good", FALSE) : p \in {"/protected", "/elster"}, a, b \in {"token", "bearer", "suffix"}}
  \cup {G(p, <<>>, <<"token">>, "GET", t, c, h, FALSE) : p \in {"/protected", "/"}, t \in {12, 13, 0}, c \in {"none", "good", "stranger", "impostor", "sibling", "thief"}, h \in {"good", "other.io", "xtest-server.io"}}
  \cup {G(p, <<>>, <<>>, "GET", t, "none", "good", TRUE) : p \in Known, t \in {12, 13}}
Bodies == {<<>>, <<97>>, <<65, 98, 122, 123, 96>>, [k \in 1..300 |-> k % 256]}
Q(m, p, b, c) == [ev |-> "echo", tls |-> 12, method |-> m, path |-> p, body |-> b, chunks |-> c]
EchoReqs == {Q("POST", p, b, c) : p \in {"/echo", "/echo/uppercase", "/echo/reversed", "/nope"}, b \in Bodies, c \in {<<>>, <<1>>, <<2, 100>>}}
            \cup {Q("GET", p, <<>>, <<>>) : p \in {"/", "/echo", "/echo/reversed"}} \cup {Q("PUT", "/echo", <<97>>, <<>>), Q("POST", "/", <<97>>, <<>>)}
Small == {Q("POST", p, <<97, 98>>, c) : p \in {"/echo", "/echo/uppercase", "/echo/reversed"}, c \in {<<>>, <<1>>}} \cup {Q("POST", "/nope", <<97>>, <<>>), Q("GET", "/", <<>>, <<>>)}
EchoCases == {[ev |-> "echos", reqs |-> <<q>>] : q \in EchoReqs} \cup {[ev |-> "echos", reqs |-> <<x, y, z>>] : x, y, z \in Small}
Ends_ == {"send_close_notify", "send_close_notify_and_close_socket", "close_socket", "send_corrupted_message", "send_record_with_bad_mac", "send_alert"}
Mids == {"other", "must_delay_when_closing"}
C(t, cs, cut, bye) == [ev |-> "conn", tls |-> t, cmds |-> cs, cut |-> cut, bye |-> bye]
ConnCases == {C(t, m \o <<x>>, FALSE, b) : t \in {12, 13}, m \in Seqs(Mids, 2), x \in Ends_, b \in BOOLEAN}
             \cup {C(t, m, FALSE, TRUE) : t \in {12, 13}, m \in Seqs(Mids, 3)}
             \cup {C(t, m \o <<x>>, TRUE, TRUE) : t \in {12, 13}, m \in Seqs(Mids, 1), x \in Ends_ \cup Mids}
Cases == IF What = "get" THEN GetCases ELSE IF What = "echo" THEN EchoCases ELSE ConnCases
VARIABLE e
Init == e \in Cases
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
(* protected documents go to nobody without the token, whatever else is asked     *)
Guarded == e.ev = "get" => \A o \in Gets(e) : o.body \in {"elster.json", "protected_data.json"} => Authorized(e)
(* only the authority's certificates or none get in *)
Gate == e.ev = "get" /\ e.ca \notin {"none", "good", "sibling"} => \A o \in Gets(e) : o.res = "refused"
(* a command after a closing one has no effect, and only a client's own close delays *)
Closed == e.ev = "conn" => /\ \A c \in Mids \cup Ends_ : LET x == [e EXCEPT !.cmds = Append(@, c)] IN e.cut = FALSE /\ Conn(e).end # "eof" => Conn(x) = Conn(e)
                           /\ Conn(e).waited => Conn(e).end = "eof"
Involution == e.ev = "echos" => \A k \in 1..Len(e.reqs) : Rev(Rev(e.reqs[k].body)) = e.reqs[k].body /\ Upper(Upper(e.reqs[k].body)) = Upper(e.reqs[k].body)
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
