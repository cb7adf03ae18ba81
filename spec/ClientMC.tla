------------------------------ MODULE ClientMC ------------------------------
(* Every behaviour of the client against the servers and applications of one
   family of environments. h is what has been done and observed so far; the
   properties below speak only about h. Each maximal behaviour is printed as a
   scenario that is then replayed against the real client. *)
EXTENDS Client, Json
CONSTANT Family_
VARIABLES c, h
vars == <<c, h>>

One(m) == [ct |-> "hs", ms |-> <<[m |-> m, p |-> "all", cut |-> 0]>>, mac |-> TRUE]
CutA(m, k) == [ct |-> "hs", ms |-> <<[m |-> m, p |-> "a", cut |-> k]>>, mac |-> TRUE]
CutB(m) == [ct |-> "hs", ms |-> <<[m |-> m, p |-> "b", cut |-> 0]>>, mac |-> TRUE]
Many(ms) == [ct |-> "hs", ms |-> [i \in 1..Len(ms) |-> [m |-> ms[i], p |-> "all", cut |-> 0]], mac |-> TRUE]
Recv(rs) == [op |-> "recv", recs |-> rs, ck |-> 100000]
RecvK(rs, k) == [op |-> "recv", recs |-> rs, ck |-> k]
Al(l, d) == [ct |-> "alert", lvl |-> l, desc |-> d, mac |-> TRUE]
App(n) == [ct |-> "app", n |-> n, mac |-> TRUE]
Ccs == [ct |-> "ccs", mac |-> TRUE]
Drain == [op |-> "drain", cap |-> 70000, vec |-> TRUE]
Proc == [op |-> "process"]
Write(n) == [op |-> "write", n |-> n]
Read(n) == [op |-> "read", n |-> n]
Start == [op |-> "start"]
Notify == [op |-> "notify"]
Dec(b) == [op |-> "dec", on |-> b]
Closed == [op |-> "closed"]

SH(suite, ext) == [k |-> "SH", leg |-> 771, rnd |-> 5, comp |-> 0, suite |-> suite, ext |-> ext]
Reneg == [t |-> "reneg"]
Stat == [t |-> "stat"]
CERT(ch) == [k |-> "CERT", chain |-> ch]
CS == [k |-> "CS", n |-> 21]
SKE(sch, by, over) == [k |-> "SKE", curve |-> 3, grp |-> 23, pt |-> "ok", by |-> by, sch |-> sch, over |-> over]
GoodSKE == SKE(1027, "ec", "right")
CR(s) == [k |-> "CR", sch |-> s, ca |-> 1]
SHD == [k |-> "SHD"]
FIN(v) == [k |-> "FIN", vd |-> v]
K(k) == [k |-> k]
Cfg(auth, alpn, sni, frag) == [op |-> "new", auth |-> auth, alpn |-> alpn, sni |-> sni, frag |-> frag]
Plain0 == Cfg("none", <<>>, TRUE, 0)

Step(i) == h[i]
Ops(o) == {i \in 1..Len(h) : h[i].op = o}
Failed == {i \in 1..Len(h) : h[i].op \in {"recv", "process"} /\ h[i].out.res # "ok"}
FirstFail == CHOOSE i \in Failed : \A j \in Failed : i <= j
After == Len(h) - FirstFail
\* what the environment does once the connection has failed
TailOps == <<Recv(<<One(SHD), Ccs, App(4)>>), Proc, Drain, Write(3), Proc, Read(10), Drain>>
FailTail == IF After < Len(TailOps) THEN {TailOps[After + 1]} ELSE {}

Sent(o) == {i \in 1..Len(h) : h[i].op = o}
NRecv == Cardinality(Ops("recv"))
LastOp == h[Len(h)].op

(* ---- family: order of the handshake ------------------------------------ *)
AllMsgs == {SH(49195, <<Reneg>>), SH(49195, <<Reneg, Stat>>), [SH(49195, <<Reneg>>) EXCEPT !.rnd = 98], CERT("ec"), CS, GoodSKE, CR(<<1027>>), SHD,
            FIN("ok"), K("HR"), K("NST"), K("CH"), K("CKE"), K("CV"), K("EE"), K("KU"), K("UNK"),
            [SHD EXCEPT !.k = "SHD"] @@ [mal |-> FALSE]}
OrderRecs == {One(m) : m \in AllMsgs} \cup {Ccs, App(3), Al(1, 90), [ct |-> "hb", mac |-> TRUE], [ct |-> "junk", mac |-> TRUE]}
               \cup {[ct |-> "ccs", mac |-> TRUE, mal |-> TRUE], [ct |-> "alert", lvl |-> 1, desc |-> 90, mac |-> TRUE, mal |-> TRUE]}
               \cup {One(x @@ [mal |-> TRUE]) : x \in {CERT("ec"), CS, GoodSKE, SH(49195, <<Reneg>>)}}
\* warnings are let through once
OrderMenu ==
  IF Failed # {} THEN FailTail
  ELSE CASE Len(h) = 1 -> {Start} [] Len(h) = 2 -> {Drain}
         [] c.st = "ccs" /\ LastOp = "recv" -> {Drain}
         [] c.st = "traffic" /\ c.rpt > 0 -> {Read(100)}
         [] c.st = "traffic" /\ (LastOp = "read" \/ h[Len(h) - 1].out.hsk = FALSE) -> {}
         [] c.st = "fin" /\ c.bdec # <<>> -> IF Len(c.bdec) = 1 THEN {Recv(<<One(FIN("ok"))>>), Recv(<<App(2)>>)} ELSE {}
         [] \E i \in Ops("recv") : h[i].recs[1].ct = "alert" ->
              {Recv(<<r>>) : r \in {x \in OrderRecs : x # Al(1, 90) /\ Do(c, Recv(<<x>>)).c.err = ""}}
         [] OTHER -> {Recv(<<r>>) : r \in OrderRecs}

(* ---- family: authentication of the server ------------------------------- *)
Chains == {"ec", "rsa", "int", "noint", "name", "root", "exp", "forged", "garb", "empty"}
Schemes == {1027, 1283, 1539, 515, 2052, 2053, 2054, 1025, 1281, 1537, 513, 2055, 2056, 4660}
Overs == {"right", "swapped", "client", "server", "params", "nothing"}
Bys == {"ec", "rsa", "other"}
AuthFlow(s, ch, ske, stat) == <<One(SH(s, IF stat THEN <<Stat, Reneg>> ELSE <<Reneg>>)), One(CERT(ch))>> \o (IF stat THEN <<One(CS)>> ELSE <<>>) \o <<One(ske), One(SHD)>>
\* signing with a scheme the key cannot do is meaningless: the signer then uses its natural one
AuthFlows ==
  {AuthFlow(s, ch, SKE(sch, by, "right"), FALSE) : s \in {49195, 49199}, ch \in {"ec", "rsa", "int"}, sch \in Schemes, by \in Bys}
  \cup {AuthFlow(s, ch, SKE(sch, by, ov), TRUE) : s \in {49195, 49199}, ch \in {"ec", "rsa", "name", "exp"}, sch \in {1027, 2052, 1025}, by \in {"ec", "rsa"}, ov \in Overs}
  \cup {AuthFlow(s, ch, SKE(IF s = 49195 THEN 1027 ELSE 2053, IF s = 49195 THEN "ec" ELSE "rsa", "right"), st) : s \in {49195, 49199}, ch \in Chains, st \in BOOLEAN}
  \cup {AuthFlow(49195, "ec", [GoodSKE EXCEPT !.grp = g, !.pt = pt, !.curve = cv], FALSE) : g \in {23, 24, 29, 4660}, pt \in {"ok", "bad"}, cv \in {1, 2, 3}}
AuthMenu ==
  IF Failed # {} THEN FailTail
  ELSE CASE Len(h) = 1 -> {Start} [] Len(h) = 2 -> {Drain}
         [] Len(h) = 3 -> {Recv(f) : f \in AuthFlows}
         [] Len(h) = 4 -> {Drain} [] Len(h) = 5 -> {Recv(<<Ccs, One(FIN("ok")), App(9)>>)}
         [] Len(h) = 6 -> {Read(20)}
         [] OTHER -> {}

(* ---- family: the hello exchange ----------------------------------------- *)
HelloCfgs == {Cfg(a, al, sni, f) : a \in {"none"}, al \in {<<>>, <<"h2", "http/1.1">>, <<"http/1.1">>}, sni \in BOOLEAN, f \in {0, 31, 32, 33, 517, 16389, 16390}}
ExtMenu == {<<Reneg>>, <<[t |-> "pf", v |-> <<0, 1, 2>>]>>, <<[t |-> "pf", v |-> <<1>>]>>, <<[t |-> "sni"]>>,
            <<[t |-> "tick"]>>, <<[t |-> "ems"]>>, <<Stat>>, <<[t |-> "unk", v |-> 4660]>>, <<[t |-> "sv", v |-> 771]>>, <<[t |-> "sv", v |-> 772]>>,
            <<[t |-> "sv", v |-> 770]>>,
            <<[t |-> "alpn", v |-> <<"h2">>]>>, <<[t |-> "alpn", v |-> <<"http/1.1">>]>>, <<[t |-> "alpn", v |-> <<"zz">>]>>,
            <<[t |-> "sct", v |-> <<3>>]>>, <<[t |-> "sct", v |-> <<3, 0>>]>>, <<[t |-> "sct", v |-> <<1, 2, 3, 4, 5, 6>>]>>,
            <<Reneg, Reneg>>, <<[t |-> "unk", v |-> 4660], [t |-> "unk", v |-> 4660]>>, <<[t |-> "pf", v |-> <<0>>], Reneg, Stat>>, <<Stat, Reneg, Stat>>,
            <<Reneg, [t |-> "unk", v |-> 17], [t |-> "sni"]>>}
\* the server's own deviations, and what it may then choose
Hellos(cfg) == {[SH(s, x) EXCEPT !.rnd = r] : s \in {49195, 49199}, x \in ExtMenu, r \in {5, 99}}
         \cup {[SH(s, <<Reneg>>) EXCEPT !.comp = cm, !.leg = lg] : s \in {49195, 49196, 49200, 49199, 52392, 4865, 156, 47, 255, 4660}, cm \in {0, 1}, lg \in {771, 770, 768, 772}}
HelloRest(m) == IF m.suite = 49199 THEN <<One(CERT("rsa")), One(SKE(1025, "rsa", "right")), One(SHD)>> ELSE <<One(CERT("ec")), One(GoodSKE), One(SHD)>>
HelloMenu ==
  IF h[1].out.res # "ok" THEN {}
  ELSE IF Failed # {} THEN (IF h[1] .frag = 0 THEN FailTail ELSE {})
  ELSE CASE Len(h) = 1 -> {Start} [] Len(h) = 2 -> {Drain, [op |-> "drain", cap |-> 7, vec |-> FALSE]}
         [] Len(h) = 3 /\ h[3].cap = 70000 -> {Recv(<<One(m)>> \o HelloRest(m)) : m \in IF h[1].frag = 0 THEN Hellos(h[1]) ELSE {SH(49195, <<Reneg>>)}}
         [] Len(h) = 4 -> {Drain}
         [] Len(h) = 5 -> {Recv(<<Ccs, One(FIN("ok"))>>)}
         [] OTHER -> {}

(* ---- family: finishing ---------------------------------------------------- *)
\* the flight cut, coalesced or run together in every way that matters
Flight == <<SH(49195, <<Reneg>>), CERT("ec"), GoodSKE, SHD>>
FlightCR == <<SH(49199, <<Stat, Reneg>>), CERT("rsa"), CS, SKE(2053, "rsa", "right"), CR(<<1027, 2052>>), SHD>>
Flat(s) == LET RECURSIVE F(_)
               F(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o F(Tail(x))
           IN F(s)
Apart(f) == [i \in 1..Len(f) |-> One(f[i])]
Halves(f, k) == Flat([i \in 1..Len(f) |-> <<CutA(f[i], k), CutB(f[i])>>])
Slide(f, k) == \* tail of one message and head of the next share a record
  <<CutA(f[1], k)>> \o [i \in 1..Len(f) |-> [ct |-> "hs", mac |-> TRUE,
       ms |-> <<[m |-> f[i], p |-> "b", cut |-> 0]>> \o IF i < Len(f) THEN <<[m |-> f[i + 1], p |-> "a", cut |-> k]>> ELSE <<>>]]
\* the flight with the beginning of another message in its last record
Ragged(f, x) == [Many(f) EXCEPT !.ms = @ \o <<[m |-> x, p |-> "a", cut |-> 2]>>]
Flights(f) == {<<Many(f)>>, Apart(f), Halves(f, 1), Halves(f, 4), Halves(f, 9), Slide(f, 2), Slide(f, 30), <<Ragged(f, FIN("ok"))>>, <<Ragged(f, K("HR"))>>}
Ends == {<<Ccs, One(FIN(v))>> : v \in {"ok", "bad", "short", "empty", "client"}}
        \cup {<<Ccs, CutA(FIN("ok"), 5), CutB(FIN("ok"))>>, <<Ccs, [One(FIN("ok")) EXCEPT !.mac = FALSE]>>,
              <<Ccs, [Many(<<FIN("ok")>>) EXCEPT !.ms = @ \o <<[m |-> K("HR"), p |-> "a", cut |-> 2]>>]>>,
              <<Ccs, Many(<<FIN("ok"), K("HR")>>)>>, <<Ccs, Many(<<K("HR"), FIN("ok")>>)>>, <<CutA(FIN("ok"), 2), Ccs, CutB(FIN("ok"))>>,
              <<One(FIN("ok"))>>, <<Ccs, Ccs, One(FIN("ok"))>>, <<Ccs, App(3), One(FIN("ok"))>>, <<Ccs, One(FIN("ok")), One(FIN("ok"))>>,
              <<Ccs, Al(1, 90), One(FIN("ok")), App(5)>>, <<Ccs, One(FIN("ok")), App(5), App(0), App(700)>>, <<Ccs, One(FIN("ok")), Al(1, 0)>>,
              <<Ccs, One(K("NST")), One(FIN("ok"))>>, <<One(K("NST")), Ccs, One(FIN("ok"))>>}
FinMenu ==
  IF Failed # {} THEN FailTail
  ELSE CASE Len(h) = 1 -> {Start} [] Len(h) = 2 -> {Drain}
         [] Len(h) = 3 -> {RecvK(f, k) : f \in Flights(Flight) \cup Flights(FlightCR), k \in {1, 700, 100000}}
         [] Len(h) = 4 -> IF h[4].ck = 100000 THEN {Drain, Proc} ELSE {Drain}
         [] Len(h) = 5 -> {Recv(f) : f \in IF h[4].ck = 100000 THEN Ends ELSE {<<Ccs, One(FIN("ok"))>>}}
         [] Len(h) = 6 -> {Read(900)}
         [] OTHER -> {}

(* ---- family: alerts and closing -------------------------------------------- *)
Levels == {1, 2, 0, 3, 255}
Descs == {0, 10, 40, 90, 100, 200}
Prefixes == << <<>>, <<One(SH(49195, <<Reneg>>)), One(CERT("ec"))>>, <<Many(Flight)>> >>
\* 0..3: before the hello, amid the flight, after it, in traffic
AlertMenu ==
  IF Failed # {} THEN (IF After = 0 THEN {Notify, Proc} ELSE IF After < 3 THEN {Drain, Read(9)} ELSE {})
  ELSE CASE Len(h) = 1 -> {Start} [] Len(h) = 2 -> {Drain}
         [] Len(h) = 3 -> {Recv(Prefixes[i] \o <<Al(l, d)>>) : i \in 1..3, l \in Levels, d \in Descs} \cup {Recv(Prefixes[3])}
         [] Len(h) = 4 -> {Drain, Notify, Closed}
         [] Len(h) = 5 /\ h[5].op = "drain" /\ c.st = "ccs" -> {Recv(<<Ccs, One(FIN("ok")), App(5)>> \o x) : x \in {<<>>} \cup
                   IF Len(h[4].recs) > 1 THEN {} ELSE
                  {<<Al(l, d)>> : l \in Levels, d \in Descs} \cup
                  {<<One(K("HR"))>>, <<One(K("HR")), App(2)>>, <<One(K("NST"))>>, <<Many(<<K("HR"), K("HR")>>)>>, <<Ccs>>, <<One(FIN("ok"))>>, <<One(SH(49195, <<Reneg>>))>>,
                   <<[ct |-> "hb", mac |-> TRUE]>>, <<[ct |-> "junk", mac |-> TRUE]>>, <<[App(3) EXCEPT !.mac = FALSE]>>, <<App(4), [App(3) EXCEPT !.mac = FALSE], App(2)>>,
                   <<[ct |-> "alert", lvl |-> 1, desc |-> 0, mac |-> TRUE, mal |-> TRUE]>>}}
         [] Len(h) = 5 -> {Proc}
         [] Len(h) = 6 /\ c.st = "traffic" -> {Read(3), Notify, Closed, Write(20)}
         [] Len(h) = 7 /\ c.st = "traffic" -> {Proc, Read(9), Notify}
         [] Len(h) = 8 /\ c.st = "traffic" -> {Proc}
         [] Len(h) = 9 /\ c.st = "traffic" -> {Drain}
         [] Len(h) = 6 -> {Drain}
         [] Len(h) = 7 -> {Read(4)}
         [] OTHER -> {}

(* ---- family: application data ----------------------------------------------- *)
DataCfgs == {Cfg("none", <<>>, TRUE, f) : f \in {0, 32, 69}}
DataOps == {Write(0), Write(27), Write(28), Write(100), Proc, Drain, Read(0), Read(5), Read(50), Recv(<<App(5)>>), Recv(<<App(3), App(0), App(40)>>), Dec(FALSE), Dec(TRUE)}
\* the wire must fall silent for a connection that is not decrypting, or everything is opened later
DataMenu(n) ==
  IF Failed # {} THEN {}
  ELSE CASE Len(h) = 1 -> {Start, Write(30)}
         [] h[2].op = "write" /\ Len(h) = 2 -> {Start}
         [] c.st = "sh" /\ LastOp = "start" -> {Drain}
         [] c.st = "sh" -> {Recv(<<Many(Flight)>>)}
         [] c.st = "ccs" /\ LastOp = "recv" -> {Drain}
         [] c.st = "ccs" /\ LastOp = "drain" -> {Write(20), Recv(<<Ccs, One(FIN("ok"))>>)}
         [] c.st = "ccs" -> {Recv(<<Ccs, One(FIN("ok"))>>)}
         [] OTHER -> LET b == Cardinality({i \in 1..Len(h) : h[i].op = "recv"}) IN
                     LET from == CHOOSE i \in 1..Len(h) : h[i].op = "recv" /\ h[i].recs[1].ct = "ccs" IN
                     IF Len(h) - from >= n THEN (IF Len(h) - from = n THEN {Proc} ELSE IF Len(h) - from = n + 1 THEN {Drain} ELSE IF Len(h) - from = n + 2 THEN {Read(200)} ELSE {})
                     ELSE DataOps

(* ---- family: back-pressure ----------------------------------------------------- *)
BigOps == {Write(16384), Write(16385), Write(60000), Write(70000), Proc, Drain, [op |-> "drain", cap |-> 999, vec |-> FALSE]}
BigMenu ==
  CASE Len(h) = 1 -> {Start, Write(65536), Write(65537), Write(65535)}
    [] c.st = "init" -> {Start}
    [] c.st = "sh" /\ LastOp = "start" -> {Drain}
    [] c.st = "sh" -> {Recv(<<Many(Flight)>>)}
    [] c.st = "ccs" /\ LastOp = "recv" -> {Drain}
    [] c.st = "ccs" -> {Recv(<<Ccs, One(FIN("ok"))>>)}
    [] OTHER -> LET from == CHOOSE i \in 1..Len(h) : h[i].op = "recv" /\ h[i].recs[1].ct = "ccs" IN
                IF Len(h) - from < 3 THEN BigOps ELSE IF Len(h) - from < 5 THEN {IF LastOp = "process" THEN Drain ELSE Proc} ELSE {}

(* ---- family: authentication of the client ----------------------------------------- *)
CAuthCfgs == {Cfg(a, <<>>, TRUE, f) : a \in {"none", "unable", "ec256", "ec384", "ed", "rsa"}, f \in {0, 48}}
CrLists == {<<1027>>, <<1283>>, <<1539>>, <<2055>>, <<2052>>, <<2053>>, <<2054>>, <<1025>>, <<1281>>, <<1537>>, <<513>>, <<4660>>, <<>>,
            <<1025, 2052>>, <<2052, 1025, 2054>>, <<1281, 1537>>, <<1283, 1027>>, <<513, 515, 1027>>, <<2055, 1027, 2052>>, <<4660, 2055>>, <<1025, 1281, 1537, 2052, 2053, 2054>>}
CaFlow(s, cr) == IF s = 49195 THEN <<One(SH(s, <<Reneg>>)), One(CERT("int")), One(GoodSKE), One(CR(cr)), One(SHD)>>
                 ELSE <<Many(<<SH(s, <<Stat>>), CERT("rsa"), CS, SKE(1537, "rsa", "right"), CR(cr), SHD>>)>>
CAuthMenu ==
  IF Failed # {} THEN FailTail
  ELSE CASE Len(h) = 1 -> {Start} [] Len(h) = 2 -> {Drain}
         [] Len(h) = 3 -> {Recv(CaFlow(s, cr)) : s \in {49195, 49199}, cr \in CrLists}
         [] Len(h) = 4 -> {Drain} [] Len(h) = 5 -> {Recv(<<Ccs, One(FIN("ok"))>>)}
         [] Len(h) = 6 -> {Recv(<<App(12)>>)} [] Len(h) = 7 -> {Read(20)}
         [] OTHER -> {}

Cfgs == CASE Family_ = "hello" -> HelloCfgs [] Family_ = "data" -> DataCfgs [] Family_ = "cauth" -> CAuthCfgs [] OTHER -> {Plain0}
Menu == CASE Family_ = "order" -> OrderMenu [] Family_ = "auth" -> AuthMenu [] Family_ = "hello" -> HelloMenu
          [] Family_ = "fin" -> FinMenu [] Family_ = "alert" -> AlertMenu [] Family_ = "data" -> DataMenu(2)
          [] Family_ = "datadeep" -> DataMenu(4) [] Family_ = "big" -> BigMenu [] Family_ = "cauth" -> CAuthMenu

Bare(e) == [f \in DOMAIN e \ {"out"} |-> e[f]]
Init == \E cfg \in Cfgs : c = New(cfg) /\ h = <<cfg @@ [out |-> NewOut(cfg)]>>
Next == \E e \in Menu : LET r == Do(c, e) IN
          /\ c' = r.c /\ h' = Append(h, e @@ [out |-> r.out])
Spec == Init /\ [][Next]_vars
Emit == IF Menu = {} THEN PrintT("SCN " \o ToJson([i \in 1..Len(h) |-> Bare(h[i])])) ELSE TRUE

(* ---- what must hold, in terms of what was done and observed ------------------------- *)
\* everything the server has received so far, and everything it has sent
Wire == Flat([i \in 1..Len(h) |-> IF h[i].op = "drain" THEN h[i].out.recs ELSE <<>>])
Srv == Flat([i \in 1..Len(h) |-> IF h[i].op = "recv" THEN h[i].recs ELSE <<>>])
SrvMsgs == Flat([i \in 1..Len(Srv) |-> IF Srv[i].ct # "hs" THEN <<[k |-> Srv[i].ct]>>
                  ELSE LET w == SelectSeq(Srv[i].ms, LAMBDA it : it.p # "a") IN [j \in 1..Len(w) |-> w[j].m]])
SrvKinds == LET x == SelectSeq(SrvMsgs, LAMBDA m : m.k # "alert") IN [i \in 1..Len(x) |-> x[i].k]
WireHs == LET x == SelectSeq(Wire, LAMBDA r : r.ct \in {"hs", "ccs"}) IN [i \in 1..Len(x) |-> IF x[i].ct = "ccs" THEN "CCS" ELSE x[i].m.k]
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
GoodSrv == {<<"SH", "CERT">> \o x \o <<"SKE">> \o y \o <<"SHD">> : x \in {<<>>, <<"CS">>}, y \in {<<>>, <<"CR">>}}
GoodCli == {<<"CH">> \o x \o <<"CKE">> \o y \o <<"CCS", "FIN">> : x \in {<<>>, <<"CERT">>}, y \in {<<>>, <<"CV">>}}
TheMsg(k) == LET x == SelectSeq(SrvMsgs, LAMBDA m : m.k = k) IN x[1]
Authentic == /\ \E f \in GoodSrv : IsPrefix(f, SrvKinds)
             /\ ChainErr(TheMsg("CERT").chain) = "" /\ TheMsg("CERT").chain # "empty"
             /\ TheMsg("SKE").over = "right" /\ TheMsg("SKE").by = LeafAlg(TheMsg("CERT").chain)
             /\ Family(TheMsg("SKE").sch) = LeafAlg(TheMsg("CERT").chain)
             /\ TheMsg("SKE").grp = 23
Delivered == Sum([i \in 1..Len(h) |-> IF h[i].op = "read" THEN h[i].out.n ELSE 0])
Accepted == Sum([i \in 1..Len(h) |-> IF h[i].op = "write" THEN h[i].out.n ELSE 0])
OnWire == LET x == SelectSeq(Wire, LAMBDA r : r.ct = "app") IN Sum([i \in 1..Len(x) |-> x[i].n])
SrvApp == LET x == SelectSeq(Srv, LAMBDA r : r.ct = "app") IN Sum([i \in 1..Len(x) |-> x[i].n])
Done == h[Len(h)].op # "new" /\ ~h[Len(h)].out.hsk
LastSt == h[Len(h)].out

\* E01
HandshakeOrder == Done => \E f \in GoodSrv : IsPrefix(f \o <<"ccs", "FIN">>, SrvKinds)
                                          /\ \E g \in GoodCli : g = WireHs
ClientOrder == \E g \in GoodCli : IsPrefix(WireHs, g)
\* E02
ServerAuthenticated == /\ ("CKE" \in Range(WireHs) => Authentic)
                       /\ (Done => Authentic)
                       /\ (h[Len(h)].op # "new" /\ LastSt.prep # "none" => Authentic)
\* E03
Negotiated == Done => LET m == TheMsg("SH") IN
   /\ m.leg = 771 /\ m.comp = 0 /\ m.suite \in Range(Suites)
   /\ \A e \in Range(m.ext) : ExtType(e) \in Offered(h[1]) \cup {65281}
   /\ \A e \in Range(m.ext) : e.t = "alpn" => Range(e.v) \subseteq Range(h[1].alpn)
\* E04
OneHello == \A i \in 1..Len(Wire) : (Wire[i].ct = "hs" /\ Wire[i].m.k = "CH") <=> i = 1
\* E05
Confirmed == Done => TheMsg("FIN").vd = "ok"
NothingInClear == \A i, j \in 1..Len(Wire) : (i < j /\ Wire[i].ct = "ccs") => Wire[j].enc
NoAppInClear == \A i \in 1..Len(Wire) : Wire[i].ct = "app" => (Wire[i].enc /\ Done)
\* E06
Sticky == \A i, j \in 1..Len(h) : (i \in Failed /\ i < j /\ h[j].op \in {"recv", "process"}) => h[j].out.res = h[i].out.res
OneFatal == Cardinality({i \in 1..Len(Wire) : Wire[i].ct = "alert" /\ Wire[i].lvl = 2}) <= 1
NoNewDataAfterError == \A i \in 1..Len(h) : (Failed # {} /\ i > FirstFail /\ h[i].op = "recv") => h[i].out.pt = 0
NoRenegotiation == Done => Cardinality({i \in 1..Len(Wire) : Wire[i].ct = "hs" /\ Wire[i].m.k = "CH"}) <= 1
\* E07
NoInvention == Delivered <= SrvApp /\ OnWire <= Accepted
DataOnlyWhenDone == (Delivered > 0 \/ OnWire > 0) => Done
Bounded == \A i \in 1..Len(h) : h[i].op = "write" => h[i].out.n <= BufLimit /\ (h[i].out.n < h[i].n => h[i].out.full)
WithinFrag == \A i \in 1..Len(Wire) : Wire[i].ct = "app" => Wire[i].n \in 1..MaxFrag(h[1])
Quiescent == (Menu = {} /\ Done /\ Failed = {} /\ Family_ \in {"data", "datadeep"}) =>
               (OnWire = Accepted /\ (c.isdec => Delivered = SrvApp))
\* E08
ClientProof == \A i \in 1..Len(Wire) : (Wire[i].ct = "hs" /\ Wire[i].m.k = "CV") =>
                  /\ "CR" \in Range(SrvKinds) /\ Wire[i].m.sch \in Range(TheMsg("CR").sch)
                  /\ h[1].auth \notin {"none", "unable"}
CertOnlyOnRequest == ("CERT" \in Range(WireHs)) => "CR" \in Range(SrvKinds)
Inv == /\ HandshakeOrder /\ ClientOrder /\ ServerAuthenticated /\ Negotiated /\ OneHello /\ Confirmed
       /\ NothingInClear /\ NoAppInClear /\ Sticky /\ OneFatal /\ NoNewDataAfterError /\ NoRenegotiation
       /\ NoInvention /\ DataOnlyWhenDone /\ Bounded /\ WithinFrag /\ Quiescent /\ ClientProof /\ CertOnlyOnRequest
=============================================================================
