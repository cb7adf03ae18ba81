------------------------------ MODULE RecordMC -------------------------------
(* Every combination of header fields and available bytes from boundary sets,   *)
(* every short payload of every content type over a small alphabet.             *)
EXTENDS Record, TLC, Json
Types == {0, 19, 20, 21, 22, 23, 24, 25, 255}
Vers == {<<3, 0>>, <<3, 3>>, <<3, 4>>, <<3, 255>>, <<2, 0>>, <<2, 9>>, <<4, 3>>, <<0, 3>>, <<254, 255>>, <<254, 253>>, <<254, 252>>}
Lens == {0, 1, 3, 16384, 18431, 18432, 18433, 65535}
Avail == {0, 1, 3}
Bytes(n) == [q \in 1..n |-> q % 251]
HeadCases == {[ev |-> "rec", b |-> <<t>> \o v \o <<n \div 256, n % 256>> \o Bytes(a)] :
                t \in Types, v \in Vers, n \in Lens, a \in Avail}
             \cup {[ev |-> "rec", b |-> SubSeq(<<22, 3, 3, 0, 2, 9, 9>>, 1, k)] : k \in 0..7}
             \cup {[ev |-> "rec", b |-> <<23, 3, 3, n \div 256, n % 256>> \o Bytes(n + d)] : n \in {16384, 18431}, d \in {-1, 0, 1}}
Alpha == {0, 1, 2, 20, 255}
Short == {<<>>} \cup [1..1 -> Alpha] \cup [1..2 -> Alpha] \cup [1..3 -> {0, 1, 2}] \cup [1..4 -> {0, 1, 14, 20}] \cup [1..5 -> {0, 1, 24}]
PayCases == {[ev |-> "pay", t |-> t, v |-> v, p |-> p] : t \in {0, 20, 21, 22, 23, 24, 25, 255}, v \in {771, 772}, p \in Short}
VARIABLE e
Init == e \in HeadCases \cup PayCases
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
r == RecRes(e)
(* A longer stream never turns an accepted or illegal record into another;      *)
(* only "short" verdicts may change.                                            *)
Stable == e.ev = "rec" => (r.res \notin {"short-header", "short-body"} => ReadRec(e.b \o <<1, 2, 3>>) = r)
Sane == e.ev = "pay" => (r.ok => e.t \in 20..23) /\ (e.t = 23 => r.ok)
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
