------------------------------ MODULE MpcConfMC ------------------------------
EXTENDS MpcConf, TLC, Json, FiniteSets
VARIABLE e
Sizes == {-1, 0, 1, 4063, 4064, 4065, 8160, 8161}
Ords == {<<"sent", "on", "recv", "sr", "rr", "defer", "low">>, <<"low", "rr", "recv", "defer", "on", "sr", "sent">>}
Init == e \in [op : {"cfg"}, sent : Sizes, on : Sizes, recv : Sizes, sr : {-1, 0, 3}, rr : {-1, 0, 30}, defer : {-1, 0, 1}, low : {-1, 0}, ord : Ords]
Spec == Init /\ [][FALSE]_e
(* what is asked for can be sent: the default number of records holds it *)
Enough == LET x == Exp(e) IN x.r = "ok" => x.sent > e.sent /\ x.recv >= x.on /\ (e.sr < 0 => x.sr * 16384 > x.sent) /\ (e.rr < 0 => x.rr * 16384 > x.on)
Emit == PrintT("SCN " \o ToJson(<<e>>))
=============================================================================
