------------------------------- MODULE TagsMC -------------------------------
(* Every deviation of every record by itself; pairs and triples of records. *)
EXTENDS Tags, TLC, Json
VARIABLE e
R(s, t, n, d, i) == [seq |-> s, typ |-> t, len |-> n, dev |-> d, i |-> i]
Devs == {<<"none", 0>>, <<"shortnonce", 0>>, <<"longnonce", 0>>, <<"cut", 0>>, <<"more", 0>>, <<"longtag", 0>>, <<"notag", 0>>}
        \cup {<<"seq", i>> : i \in {0, 1, 7, 8, 15, 16, 31, 32, 47, 63}} \cup {<<"typ", i>> : i \in {20, 21, 22, 23, 24, 99}}
        \cup {<<"nonce", i>> : i \in 0..7} \cup {<<"data", i>> : i \in {0, 14, 15, 16, 17, 300}}
        \cup {<<"tag", i>> : i \in 0..15} \cup {<<"shorttag", i>> : i \in {0, 1, 8, 12, 15}}
Few == {<<"none", 0>>, <<"seq", 0>>, <<"typ", 21>>, <<"nonce", 3>>, <<"data", 0>>, <<"tag", 15>>, <<"shorttag", 0>>, <<"notag", 0>>, <<"longnonce", 0>>}
Ev(v, a, rs) == [ev |-> "tags", seed |-> 5, ver |-> v, all |-> a, recs |-> rs]
Trade == {"none", "swap", "swapdata", "swaptag", "swapnonce"}
Init == \/ \E s \in {0, 1, 255, 256, 65536, 2147483647}, t \in {20, 21, 22, 23, 24, 77}, n \in {0, 1, 15, 16, 17, 301}, d \in Devs :
             /\ (s = 0 \/ t = 23) /\ (n \in {0, 16} \/ s < 2)
             /\ e = Ev("1.2", "none", <<R(s, t, n, d[1], d[2])>>)
        \/ \E a \in Trade, d \in Few, f \in Few, n \in {0, 1, 16}, m \in {0, 16} :
             e = Ev("1.2", a, <<R(0, 22, n, d[1], d[2]), R(1, 23, m, f[1], f[2])>>)
        \/ \E a \in Trade, d \in Few, k \in 1..3 :
             e = Ev("1.2", a, [j \in 1..3 |-> IF j = k THEN R(j, 23, 5, d[1], d[2]) ELSE R(j, 23, 5, "none", 0)])
        \/ \E rs \in {<<>>, <<R(0, 22, 16, "none", 0)>>} : e = Ev("1.3", "none", rs)
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
\* nothing the server did not seal is believed
Sound == Exp(e).v = "ok" => \A k \in DOMAIN e.recs : e.recs[k].dev \in {"none", "typ", "data", "cut"}
Emit == PrintT("SCN " \o ToJson(<<e>>))
=============================================================================
