-------------------------------- MODULE Http --------------------------------
(* The server fixtures: one request per connection with optional client           *)
(* authentication (server-fixture), the keep-alive echo server and the record      *)
(* command server (tls-server-fixture), message and certificate fixtures.          *)
EXTENDS Integers, Sequences, FiniteSets

(* A query is a sequence of parameters; the last one of a name counts, and a size  *)
(* that is not a number counts as 1.                                               *)
SizeParams(e) == {k \in 1..Len(e.q) : e.q[k].k = "size"}
LastSize(e) == e.q[CHOOSE k \in SizeParams(e) : \A j \in SizeParams(e) : j <= k]
Size(e) == IF SizeParams(e) = {} THEN 1
           ELSE IF LastSize(e).form \in {"num", "zeros", "pct"} THEN LastSize(e).n ELSE 1
Shutdown(e) == \E k \in 1..Len(e.q) : e.q[k].k = "shutdown"

(* Only the first Authorization header counts; it is the token, with or without    *)
(* the Bearer scheme.                                                              *)
Authorized(e) == e.auth # <<>> /\ e.auth[1] \in {"token", "bearer"}

R(st, ty, b, n) == [res |-> "ok", status |-> st, type |-> ty, body |-> b, n |-> n, more |-> FALSE, served |-> TRUE]
None(x) == [res |-> x, status |-> 0, type |-> "", body |-> "", n |-> 0, more |-> FALSE, served |-> FALSE]
JsonT == "application/json"
Text == "text/plain; charset=utf-8"
Route(e) ==
  CASE e.path = "/" -> R(200, Text, "hello", 0)
    [] e.path = "/bytes" -> R(200, "application/octet-stream", IF Size(e) = 0 THEN "empty" ELSE "fill", Size(e))
    [] e.path = "/formats/json" ->
         (IF Size(e) = 1 THEN R(200, JsonT, "1kb.json", 0) ELSE IF Size(e) = 4 THEN R(200, JsonT, "4kb.json", 0)
          ELSE IF Size(e) = 8 THEN R(200, JsonT, "8kb.json", 0) ELSE R(404, "", "empty", 0))
    [] e.path = "/formats/html" -> R(200, "text/html; charset=utf-8", "4kb.html", 0)
    [] e.path \in {"/protected", "/elster"} ->
         (IF ~Authorized(e) THEN R(401, Text, "other", 24)
          ELSE R(200, JsonT, IF e.path = "/elster" THEN "elster.json" ELSE "protected_data.json", 0))
    [] OTHER -> R(404, "", "empty", 0)
Known == {"/", "/bytes", "/formats/json", "/formats/html", "/protected", "/elster"}
Answer(e) == IF e.path \in Known /\ e.method \notin {"GET", "HEAD"} THEN R(405, "", "empty", 0)
             ELSE IF e.method = "HEAD" THEN [Route(e) EXCEPT !.body = "empty", !.n = 0] ELSE Route(e)
(* The peer is refused when it does not trust the name, or when it presents a     *)
(* certificate the authority did not issue or whose key it does not hold; no       *)
(* certificate at all is fine.                                                     *)
Refused(e) == e.host # "good" \/ e.ca \in {"stranger", "impostor", "thief"}
(* A shutdown request ends the server at once: its response may be lost.           *)
Ends(e) == Shutdown(e) /\ e.path \in {"/bytes", "/formats/json", "/formats/html"} /\ e.method \in {"GET", "HEAD"}
Gets(e) == IF Refused(e) THEN {None("refused")}
           ELSE {Answer(e)} \cup (IF Ends(e) THEN {None("none")} ELSE {})

(* Echo *)
Upper(b) == [k \in 1..Len(b) |-> IF b[k] \in 97..122 THEN b[k] - 32 ELSE b[k]]
Rev(b) == [k \in 1..Len(b) |-> b[Len(b) + 1 - k]]
E(st, b) == [res |-> "ok", status |-> st, body |-> b]
Echo(e) == CASE e.method = "GET" /\ e.path = "/" -> E(200, <<0>>) \* instructions
             [] e.method = "POST" /\ e.path \in {"/echo", "/echo?x=1"} -> E(200, e.body)
             [] e.method = "POST" /\ e.path = "/echo/uppercase" -> E(200, Upper(e.body))
             [] e.method = "POST" /\ e.path = "/echo/reversed" -> E(200, Rev(e.body))
             [] OTHER -> E(404, <<>>)
(* An unknown route may hang up on a body it had no reason to read. *)
Unread(e) == Echo(e).status = 404 /\ (e.body # <<>> \/ e.chunks # <<>>)
Echoes(e) == {Echo(e)} \cup (IF Unread(e) THEN {[res |-> "closed", status |-> 0, body |-> <<>>]} ELSE {})
EchoOk(e) == e.out \in Echoes(e)

(* Record commands: the server reads whole records of 1024 bytes, one at a time,   *)
(* as a machine with a delay flag; a closing command is its last.                  *)
End(c) == CASE c \in {"send_close_notify", "send_close_notify_and_close_socket"} -> "notify"
            [] c = "close_socket" -> "eof" [] c = "send_corrupted_message" -> "corrupt"
            [] c = "send_record_with_bad_mac" -> "decrypt" [] c = "send_alert" -> "alert" [] OTHER -> "none"
S0 == [hellos |-> 0, delay |-> FALSE, end |-> "none"]
StepC(s, c) == IF s.end # "none" THEN s
               ELSE IF c = "must_delay_when_closing" THEN [s EXCEPT !.delay = TRUE]
               ELSE IF End(c) # "none" THEN [s EXCEPT !.end = End(c)]
               ELSE [s EXCEPT !.hellos = @ + 1]
RECURSIVE RunC(_, _, _)
RunC(s, cs, k) == IF k > Len(cs) THEN s ELSE RunC(StepC(s, cs[k]), cs, k + 1)
Conn(e) == LET cs == IF e.cut THEN SubSeq(e.cmds, 1, Len(e.cmds) - 1) ELSE e.cmds
               s == RunC(S0, cs, 1) IN
           [hellos |-> s.hellos, end |-> IF s.end = "none" THEN "eof" ELSE s.end,
            waited |-> s.delay /\ s.end = "none", junk |-> FALSE]

(* Message fixtures *)
D(line, hdrs, eh, ch, mu, b, ty) == [line |-> line, ended |-> TRUE, hdrs |-> hdrs, emptyhdr |-> eh, chunked |-> ch, multi |-> mu, body |-> b, ctype |-> ty, whole |-> TRUE]
OkLine == "HTTP/1.1 200 OK"
GetLine == "GET / HTTP/1.1"
Data(n) == CASE n = "GET_EMPTY" -> D(GetLine, FALSE, FALSE, FALSE, FALSE, "none", "none")
             [] n = "GET_EMPTY_HEADER" -> D(GetLine, TRUE, TRUE, FALSE, FALSE, "none", "none")
             [] n = "GET_WITH_HEADER" -> D(GetLine, TRUE, FALSE, FALSE, FALSE, "none", "none")
             [] n = "POST_JSON" -> D("POST /hello HTTP/1.1", TRUE, FALSE, FALSE, FALSE, "json", "json")
             [] n = "OK_EMPTY" -> D(OkLine, TRUE, FALSE, FALSE, FALSE, "none", "none")
             [] n = "OK_EMPTY_HEADER" -> D(OkLine, TRUE, TRUE, FALSE, FALSE, "none", "none")
             [] n = "OK_TEXT" -> D(OkLine, TRUE, FALSE, FALSE, FALSE, "text", "text")
             [] n = "OK_JSON" -> D(OkLine, TRUE, FALSE, FALSE, FALSE, "json", "json")
             [] n = "OK_CHUNKED_TEXT" -> D(OkLine, TRUE, FALSE, TRUE, FALSE, "text", "text")
             [] n = "OK_CHUNKED_JSON" -> D(OkLine, TRUE, FALSE, TRUE, FALSE, "json", "json")
             [] n = "OK_CHUNKED_TEXT_MULTI" -> D(OkLine, TRUE, FALSE, TRUE, TRUE, "text", "text")
             [] n = "OK_CHUNKED_JSON_MULTI" -> D(OkLine, TRUE, FALSE, TRUE, TRUE, "json", "json")
Certs == [client |-> TRUE, server |-> TRUE, plain |-> TRUE, domains |-> <<"test-server.io", "test-server.io">>]

Ok(e) == CASE e.ev = "get" -> e.out \in Gets(e) [] e.ev = "echo" -> EchoOk(e)
           [] e.ev = "conn" -> e.out = Conn(e) [] e.ev = "data" -> e.out = Data(e.name) [] e.ev = "certs" -> e.out = Certs
Exp(e) == CASE e.ev = "get" -> Gets(e) [] e.ev = "echo" -> Echoes(e)
           [] e.ev = "conn" -> Conn(e) [] e.ev = "data" -> Data(e.name) [] e.ev = "certs" -> Certs
==============================================================================
