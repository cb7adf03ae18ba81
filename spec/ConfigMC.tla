------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Config, Json
Op(f, v) == [f |-> f, v |-> v]
Vals(f) == CASE f \in {"sent", "srec", "rrec"} -> {0, 7} [] f = "recv" -> {0, 31, 32, 33, 4096} [] f = "online" -> {0, 32, 33, 4097} [] OTHER -> {0, 1}
Choice(f) == {<<>>} \cup {<<Op(f, v)>> : v \in Vals(f)}
(* every combination of fields set or not, and double settings                    *)
Some == {a \o b \o c \o d : a \in Choice("sent"), b \in Choice("recv"), c \in Choice("online"), d \in UNION {Choice(f) : f \in {"srec", "rrec", "defer", "net"}}}
Twice == {<<Op("sent", 1), Op("recv", 64)>> \o <<Op(f, v), Op(f, w)>> : f \in Fields, v \in {0, 1, 50}, w \in {0, 1, 65}}
Sane(ops) == \A q \in DOMAIN ops : ops[q].f \in {"defer", "net"} => ops[q].v \in {0, 1}
Mixed == {<<Op("net", n), Op("rrec", 3), Op("defer", d), Op("srec", 4), Op("online", o), Op("recv", r), Op("sent", 5)>> : n \in {0, 1}, d \in {0, 1}, o \in {0, 9, 10}, r \in {9, 10}}
Cases == {[ev |-> "mpc", ops |-> o] : o \in {x \in Some \cup Twice \cup Mixed : Sane(x)}}
         \cup {[ev |-> "mpcwire", ops |-> o] : o \in {x \in Some \cup Twice \cup Mixed : Sane(x) /\ Set(x, "sent") /\ Set(x, "recv")}}
         \cup {[ev |-> "client", name |-> n, roots |-> r, auth |-> a] : n \in {"", "a.test", "b.x.test"}, r \in {0 - 1, 0, 2}, a \in {<<>>, <<1>>, <<2, 3>>}}
         \cup {[ev |-> "verifier", roots |-> r] : r \in {0 - 1, 0, 1, 3}} \cup {[ev |-> "proxy", name |-> n] : n \in {"", "a.test", "xn--a.test"}}
VARIABLE e
Init == e \in Cases
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
(* an accepted configuration always leaves room for the online part, and an        *)
(* accepted one is accepted again by whoever receives it                           *)
Room == (e.ev = "mpc" /\ Mpc(e.ops).ok) => Mpc(e.ops).online <= Mpc(e.ops).recv /\ Wire(e.ops) = Mpc(e.ops)
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
