------------------------------- MODULE LiveMC -------------------------------
(* Openings of a session and every sequence of Depth events after it, then what
   ends a session in good order. *)
EXTENDS Live, FiniteSets, Json
CONSTANTS Depth, Family
VARIABLES o, s, h
Seen == [p |-> "ok", v |-> "rejected", bye |-> TRUE, srv |-> 0]
Plain == [ev |-> "new", mode |-> "mpc", seed |-> 7, chain |-> "ok", suites |-> "ok", cut |-> -1, flip |-> -1,
          version |-> "same", defer |-> FALSE, lim |-> [sent |-> 900, recv |-> 900, online |-> 900]]
Modes == {Plain, [Plain EXCEPT !.defer = TRUE], [Plain EXCEPT !.mode = "proxy"]}
Odd == UNION {{[m EXCEPT !.chain = c] : c \in {"name", "root", "old"}} \cup {[m EXCEPT !.suites = c] : c \in {"tls13", "group", "suite"}}
              \cup {[m EXCEPT !.cut = k] : k \in 0..9} \cup {[m EXCEPT !.flip = k] : k \in 0..8} \cup {[m EXCEPT !.version = "other"]}
              \cup {[m EXCEPT !.lim = [sent |-> 40, recv |-> 900, online |-> 900]], [m EXCEPT !.lim = [sent |-> 900, recv |-> 40, online |-> 40]],
                    [m EXCEPT !.lim = [sent |-> 900, recv |-> 900, online |-> 10]]} : m \in Modes}
Answer == [ev |-> "answer", yes |-> TRUE]
Reject == [ev |-> "answer", yes |-> FALSE]
Connect1 == [ev |-> "connect"]
W == [ev |-> "write", n |-> 100]
S == [ev |-> "send", n |-> 120]
Close == [ev |-> "close"]
Bye == [ev |-> "bye", cut |-> FALSE]
ByeCut == [ev |-> "bye", cut |-> TRUE]
Menu == {W, S, Close, [ev |-> "drop"], Bye, ByeCut, [ev |-> "cut"], [ev |-> "flip"], [ev |-> "defer", on |-> TRUE], [ev |-> "defer", on |-> FALSE],
         [ev |-> "vanish", who |-> "p"], [ev |-> "vanish", who |-> "v"], [ev |-> "prove", yes |-> TRUE], [ev |-> "end", who |-> "p"], [ev |-> "end", who |-> "v"]}
Early == {W, Close, Reject, Answer, Connect1, [ev |-> "cut"], [ev |-> "vanish", who |-> "p"], [ev |-> "vanish", who |-> "v"], [ev |-> "end", who |-> "p"], [ev |-> "end", who |-> "v"]}
Fin == <<Close, ByeCut, [ev |-> "prove", yes |-> TRUE]>>
Firm == <<Answer, Connect1>>
Begin == CASE Family = "order" -> {<<m, Firm>> : m \in Modes}
           [] Family = "odd" -> {<<m, Firm>> : m \in Odd}
           [] Family = "early" -> {<<m, <<>>>> : m \in Modes}
Acts == IF Family = "early" THEN Early ELSE IF Family = "odd" THEN {W, S, Close, Bye, [ev |-> "defer", on |-> FALSE], [ev |-> "drop"]} ELSE Menu
Skip == IF Family = "early" THEN 0 ELSE 2
Do(t, q) == FoldSeq(LAMBDA e, a : Act(a, e, Seen), t, q)
Init == \E b \in Begin : o = b[1] /\ h = b[2] /\ s = Do(Start(b[1]), b[2])
N == Len(h) - Skip
Next == /\ N < Depth
        /\ \E e \in Acts : h' = Append(h, e) /\ s' = Act(s, e, Seen)
        /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, s, h>>
Both == s.p = "done" /\ s.v = "done"
(* a session that is done was with the right server, and nothing was altered *)
Genuine == s.p = "done" => s.good /\ ~s.bad /\ s.hs /\ (s.flip = -1 \/ s.flip >= s.n \/ s.bye)
(* and the parties have all the server and the application sent *)
Complete == s.p = "done" => (s.mode = "mpc" => s.notif \/ s.rs # <<>>) /\ (s.conn \in {"open", "closed"} => s.got = Sum(s.rr))
Honest == s.got <= Sum(s.rr)
(* neither ends well alone, unless the other one left *)
Together == s.p = "done" => s.v \in {"done", "gone"}
Rejected == (\E k \in DOMAIN h : h[k] = Reject) /\ s.v = "rejected" => ~s.hs
Ending == IF Family = "early" THEN Firm \o Fin ELSE Fin
Emit == IF N = Depth THEN PrintT("SCN " \o ToJson(<<o>> \o h \o Ending)) ELSE TRUE
=============================================================================
