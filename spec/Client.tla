------------------------------- MODULE Client -------------------------------
(* The TLS 1.2 client that the prover runs: its handshake state machine, the
   decisions it takes about the server, alerts, closure, and the buffering of
   application data. Cryptography is delegated to a backend, which is part of
   the model: records handed to it are protected/opened in order, and
   application data comes out only once traffic is started.

   c is the whole state of a connection; Do(c, e) is one step e of the
   environment (application, network or prover) and gives the next state and
   what can be observed of it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Suites == <<49195, 49199>>            \* ECDHE_{ECDSA,RSA}_AES_128_GCM_SHA256
VerifySchemes == <<1283, 1027, 2055, 2054, 2053, 2052, 1537, 1281, 1025>>
RsaOrder == <<2054, 2053, 2052, 1537, 1281, 1025>>
P256 == 23
BufLimit == 65536
MaxFrag(cfg) == IF cfg.frag = 0 THEN 16384 ELSE cfg.frag - 5
FragOk(cfg) == cfg.frag = 0 \/ cfg.frag \in 32..16389

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Chunks(_, _)
Chunks(n, m) == IF n <= m THEN <<n>> ELSE <<m>> \o Chunks(n - m, m)
Has(f, m) == f \in DOMAIN m

(* ---- what the server may present ------------------------------------- *)
\* certificate chains: verdict of the verifier and the key of the leaf
ChainErr(ch) == CASE ch \in {"ec", "rsa", "int"} -> ""
                  [] ch = "garb" -> "core:encoding"
                  [] ch = "forged" -> "core:sig"
                  [] OTHER -> "core:data"
LeafAlg(ch) == IF ch = "rsa" THEN "rsa" ELSE "ec"
EcSch == {1027, 1283, 1539}
RsaSch == {2052, 2053, 2054, 1025, 1281, 1537}
\* signature family of a scheme
Family(sch) == CASE sch \in EcSch \cup {515} -> "ec"
                 [] sch \in RsaSch \cup {513} -> "rsa"
                 [] sch \in {2055, 2056} -> "ed"
                 [] OTHER -> "?"
\* (the suite check tells RSA from ECDSA from everything else)
SuiteFamilies(s) == IF s = 49195 THEN {"ec", "ed", "?"} ELSE {"rsa"}
\* verdict on the signature over the key exchange
SigErr(ske, ch) ==
  CASE ske.sch \in {513, 515, 1539, 2056} \/ Family(ske.sch) = "?" -> "core:misbehaved"
    [] ske.sch = 2055 -> "core:sigtype"
    [] Family(ske.sch) # LeafAlg(ch) -> "core:sigtype"
    [] ske.by # LeafAlg(ch) -> "core:sig"
    [] ske.over # "right" -> "core:sig"
    [] LeafAlg(ch) = "ec" /\ ske.sch # 1027 -> "core:sig"
    [] OTHER -> ""

(* ---- server extensions ------------------------------------------------ *)
ExtType(e) == CASE e.t = "pf" -> 11 [] e.t = "sni" -> 0 [] e.t = "tick" -> 35
                [] e.t = "reneg" -> 65281 [] e.t = "alpn" -> 16 [] e.t = "ems" -> 23
                [] e.t = "stat" -> 5 [] e.t = "sct" -> 18 [] e.t = "sv" -> 43
                [] OTHER -> e.v
\* what the client hello offers, in order
HelloExts(cfg) ==
  << [t |-> 43, v |-> <<771>>, left |-> 0], [t |-> 11, v |-> <<0>>, left |-> 0],
     [t |-> 10, v |-> <<P256>>, left |-> 0], [t |-> 13, v |-> VerifySchemes, left |-> 0],
     [t |-> 5, v |-> <<1, 0, 0, 0, 0>>, left |-> 0] >>
  \o (IF cfg.sni THEN <<[t |-> 0, v |-> [name |-> "test-server.io", ty |-> 0, left |-> 0], left |-> 0]>> ELSE <<>>)
  \o <<[t |-> 18, v |-> <<>>, left |-> 0]>>
  \o (IF cfg.alpn # <<>> THEN <<[t |-> 16, v |-> cfg.alpn, left |-> 0]>> ELSE <<>>)
Offered(cfg) == {HelloExts(cfg)[i].t : i \in 1..Len(HelloExts(cfg))}
ClientHello(cfg) == [k |-> "CH", ver |-> 771, rnd |-> TRUE, sid |-> 32, suites |-> Suites \o <<255>>,
                     comp |-> <<0>>, exts |-> HelloExts(cfg), over |-> 0]

Exts(m, t) == SelectSeq(m.ext, LAMBDA e : e.t = t)
Dup(m) == \E i, j \in 1..Len(m.ext) : i # j /\ ExtType(m.ext[i]) = ExtType(m.ext[j])

(* ---- the connection --------------------------------------------------- *)
New(cfg) ==
  [cfg |-> cfg, st |-> "init", err |-> "", bk |-> "ready", prep |-> "none",
   enc |-> FALSE, dec |-> FALSE, ms |-> FALSE, mr |-> FALSE, aligned |-> TRUE, part |-> FALSE,
   cn |-> FALSE, isdec |-> TRUE, started |-> FALSE,
   encb |-> <<>>, benc |-> <<>>, bin |-> <<>>, bdec |-> <<>>,
   spt |-> <<>>, rpt |-> 0, out |-> <<>>, finseen |-> FALSE,
   sh |-> [k |-> "none"], chain |-> "none", ske |-> [k |-> "none"], cr |-> [k |-> "none"], stat |-> FALSE]

Fail(c, e) == IF c.err # "" THEN c ELSE [c EXCEPT !.err = e]
Push(c, r) == IF c.err # "" THEN c
              ELSE IF c.bk = "active" THEN [c EXCEPT !.encb = Append(@, r)]
              ELSE Fail(c, "backend")
Queue(c, r) == IF c.err # "" THEN c ELSE [c EXCEPT !.out = Append(@, r)]
Hs(c, m, ver, enc) == [ct |-> "hs", ver |-> ver, enc |-> enc, frok |-> TRUE, m |-> m]
Alert(c, lvl, desc) ==
  LET r == [ct |-> "alert", ver |-> 771, enc |-> c.enc, lvl |-> lvl, desc |-> desc]
  IN IF c.enc THEN Push(c, r) ELSE Queue(c, r)
Fatal(c, desc, e) == Fail(Alert(c, 2, desc), e)

(* ---- names of things in errors ---------------------------------------- *)
CtName(m) == CASE m.k = "CCS" -> "ChangeCipherSpec" [] m.k = "APP" -> "ApplicationData" [] OTHER -> "Handshake"
HsName(m) == CASE m.k = "SH" -> (IF m.rnd = 98 THEN "HelloRetryRequest" ELSE "ServerHello")
               [] m.k = "CERT" -> "Certificate" [] m.k = "CS" -> "CertificateStatus"
               [] m.k = "SKE" -> "ServerKeyExchange" [] m.k = "CR" -> "CertificateRequest"
               [] m.k = "SHD" -> "ServerHelloDone" [] m.k = "FIN" -> "Finished" [] m.k = "HR" -> "HelloRequest"
               [] m.k = "NST" -> "NewSessionTicket" [] m.k = "CH" -> "ClientHello" [] m.k = "CKE" -> "ClientKeyExchange"
               [] m.k = "CV" -> "CertificateVerify" [] m.k = "EE" -> "EncryptedExtensions" [] m.k = "KU" -> "KeyUpdate"
               [] OTHER -> "Unknown(99)"
InappHs(c, m, exp) == IF CtName(m) = "Handshake" THEN Fatal(c, 10, "inapphs:" \o HsName(m) \o "/" \o exp)
                      ELSE Fatal(c, 10, "inapp:" \o CtName(m) \o "/Handshake")
Inapp(c, m, exp) == Fatal(c, 10, "inapp:" \o CtName(m) \o "/" \o exp)

(* ---- application data -------------------------------------------------- *)
RECURSIVE PushFrags(_, _)
PushFrags(c, ns) == IF ns = <<>> THEN c
                    ELSE PushFrags(Push(c, [ct |-> "app", ver |-> 771, enc |-> TRUE, n |-> Head(ns), same |-> TRUE]), Tail(ns))
RECURSIVE FlushPt(_)
FlushPt(c) == IF ~c.ms \/ c.spt = <<>> \/ c.err # "" THEN c
              ELSE FlushPt(PushFrags([c EXCEPT !.spt = Tail(@)], Chunks(Head(c.spt), MaxFrag(c.cfg))))

(* ---- handshake --------------------------------------------------------- *)
OnServerHello(c, m) ==
  LET sv == Exts(m, "sv")
      vers == IF m.leg = 771 /\ sv # <<>> THEN sv[1].v ELSE m.leg
      alpn == Exts(m, "alpn")
      proto == IF alpn # <<>> /\ Len(alpn[1].v) = 1 THEN alpn[1].v[1] ELSE ""
      pf == Exts(m, "pf")
      sct == Exts(m, "sct")
  IN CASE vers # 771 -> Fatal(c, 70, "incompatible")
       [] sv # <<>> -> Fatal(c, 47, "misbehaved")
       [] m.comp # 0 -> Fatal(c, 47, "misbehaved")
       [] Dup(m) -> Fatal(c, 50, "misbehaved")
       [] \E e \in Range(m.ext) : ExtType(e) \notin Offered(c.cfg) \cup {65281} -> Fatal(c, 110, "misbehaved")
       [] proto # "" /\ proto \notin Range(c.cfg.alpn) -> Fatal(c, 47, "misbehaved")
       [] pf # <<>> /\ 0 \notin Range(pf[1].v) -> Fatal(c, 40, "misbehaved")
       [] m.suite \notin Range(Suites) -> Fatal(c, 40, "misbehaved")
       [] sct # <<>> /\ (sct[1].v = <<>> \/ 0 \in Range(sct[1].v)) -> Fail(c, "misbehaved")
       [] OTHER -> [c EXCEPT !.st = "cert", !.sh = m, !.stat = Exts(m, "stat") # <<>>]

\* the client's certificate: which scheme it can sign with
First(order, offered) ==
  LET I == {i \in 1..Len(order) : order[i] \in Range(offered)} IN
  IF I = {} THEN 0 ELSE order[CHOOSE i \in I : \A j \in I : i <= j]
KeyOrder(auth) == CASE auth = "ec256" -> <<1027>> [] auth = "ec384" -> <<1283>> [] auth = "ed" -> <<2055>>
                    [] auth = "rsa" -> RsaOrder [] OTHER -> <<>>
Scheme(c) == IF c.cr.k = "none" THEN 0 ELSE First(KeyOrder(c.cfg.auth), c.cr.sch)

OnHelloDone(c, m) ==
  LET cerr == ChainErr(c.chain)
      serr == SigErr(c.ske, c.chain)
      c1 == IF c.cr.k = "none" THEN c
            ELSE Queue(c, Hs(c, [k |-> "CERT", own |-> IF Scheme(c) # 0 THEN "all" ELSE "none"], 771, FALSE))
      c2 == Queue(c1, Hs(c, [k |-> "CKE", same |-> TRUE], 771, FALSE))
      c3 == IF Scheme(c) = 0 THEN c2 ELSE Queue(c2, Hs(c, [k |-> "CV", sch |-> Scheme(c), ok |-> TRUE], 771, FALSE))
      c4 == Queue(c3, [ct |-> "ccs", ver |-> 771, enc |-> FALSE])
      c5 == [c4 EXCEPT !.prep = "ok", !.bk = "active", !.enc = TRUE, !.st = "ccs"]
  IN CASE ~c.aligned -> Fatal(c, 10, "misbehaved")
       [] c.chain = "empty" -> Fail(c, "NoCertificatesPresented")
       [] cerr # "" -> Fatal(c, 42, cerr)
       [] Family(c.ske.sch) \notin SuiteFamilies(c.sh.suite) -> Fail(c, "misbehaved")
       [] serr # "" -> Fatal(c, 42, serr)
       [] c.ske.grp # P256 -> Fail(c1, "misbehaved")
       [] c.ske.pt # "ok" -> Fail([c4 EXCEPT !.prep = "ok", !.bk = "error"], "backend")
       [] OTHER -> Push(c5, Hs(c, [k |-> "FIN", ok |-> TRUE], 771, TRUE))

Traffic(c) == FlushPt([c EXCEPT !.mr = TRUE, !.started = TRUE, !.ms = TRUE, !.st = "traffic"])

Handle(c, m) ==
  CASE c.st = "sh" -> IF m.k = "SH" /\ m.rnd # 98 THEN OnServerHello(c, m) ELSE InappHs(c, m, "ServerHello")
    [] c.st = "cert" -> IF m.k = "CERT" THEN [c EXCEPT !.st = IF c.stat THEN "statusorske" ELSE "ske", !.chain = m.chain]
                        ELSE InappHs(c, m, "Certificate")
    [] c.st \in {"statusorske", "ske"} ->
         IF m.k = "SKE" THEN (IF m.curve # 3 \/ Has("mal", m) THEN Fatal(c, 50, "payload:Handshake") ELSE [c EXCEPT !.st = "doneorcr", !.ske = m])
         ELSE IF m.k = "CS" /\ c.st = "statusorske" THEN [c EXCEPT !.st = "ske"]
         ELSE InappHs(c, m, IF c.st = "ske" THEN "ServerKeyExchange" ELSE "ServerKeyExchange+CertificateStatus")
    [] c.st \in {"doneorcr", "done"} ->
         IF m.k = "CR" /\ c.st = "doneorcr" THEN [c EXCEPT !.st = "done", !.cr = m]
         ELSE IF m.k = "SHD" THEN OnHelloDone(c, m)
         ELSE InappHs(c, m, "ServerHelloDone")
    [] c.st = "ccs" -> IF m.k # "CCS" THEN Inapp(c, m, "ChangeCipherSpec")
                       ELSE IF ~c.aligned THEN Fatal(c, 10, "misbehaved")
                       ELSE [c EXCEPT !.dec = TRUE, !.st = "fin"]
    [] c.st = "fin" -> IF m.k # "FIN" THEN InappHs(c, m, "Finished")
                       ELSE IF ~c.aligned THEN Fatal(c, 10, "misbehaved")
                       ELSE IF m.vd # "ok" \/ ~c.finseen THEN Fatal(c, 51, "DecryptError")
                       ELSE Traffic(c)
    [] c.st = "traffic" -> IF m.k = "APP" THEN [c EXCEPT !.rpt = @ + m.n]
                           ELSE Inapp(c, m, "ApplicationData")

Main(c, m) == IF c.err # "" THEN c
              ELSE IF c.mr /\ m.k = "HR" THEN Alert(c, 1, 100)
              ELSE Handle(c, m)

OnAlert(c, r) ==
  CASE r.lvl \notin {1, 2} -> Fatal(c, 47, "alert:" \o ToString(r.desc))
    [] r.desc = 0 -> [c EXCEPT !.cn = TRUE]
    [] r.lvl = 1 -> c
    [] OTHER -> Fail(c, "alert:" \o ToString(r.desc))

\* a message that does not parse: shorter than its structure, or a
\* certificate request that names no signature scheme
\* (a key exchange is only looked into when it is due)
Mal(x) == (Has("mal", x) /\ x.mal /\ ~(Has("k", x) /\ x.k = "SKE")) \/ (Has("k", x) /\ x.k = "CR" /\ x.sch = <<>>)
RECURSIVE Mains(_, _)
Mains(c, ms) == IF ms = <<>> THEN c ELSE Mains(Main(c, Head(ms)), Tail(ms))
\* one record in the clear
Plain(c, r) ==
  IF c.err # "" THEN c
  ELSE CASE r.ct = "hs" ->
         LET whole == SelectSeq(r.ms, LAMBDA it : it.p # "a")
             ms == [i \in 1..Len(whole) |-> whole[i].m]
             tail == r.ms # <<>> /\ r.ms[Len(r.ms)].p = "a"
             c1 == [c EXCEPT !.aligned = ~tail]
         IN IF \E i \in 1..Len(ms) : Mal(ms[i]) THEN Fatal(c, 50, "payload:Handshake")
            ELSE Mains(c1, ms)
    [] r.ct = "alert" -> IF Mal(r) THEN Fail(c, "core:payload:Alert") ELSE OnAlert(c, r)
    [] r.ct = "ccs" -> IF Mal(r) THEN Fail(c, "core:payload:ChangeCipherSpec") ELSE Main(c, [k |-> "CCS"])
    [] r.ct = "app" -> Main(c, [k |-> "APP", n |-> r.n])
    [] r.ct = "hb" -> Fail(c, "core:payload:Heartbeat")

(* ---- one round of processing ------------------------------------------- *)
\* a record from the wire: handled at once, or handed to the backend
Frame(c, r) == IF c.err # "" THEN c
               ELSE IF ~c.dec THEN Plain(c, r)
               ELSE IF c.bk = "active" THEN [c EXCEPT !.bin = Append(@, r)]
               ELSE Fail(c, "backend")
RECURSIVE Frames(_, _)
Frames(c, rs) == IF rs = <<>> THEN c ELSE Frames(Frame(c, Head(rs)), Tail(rs))

\* how many buffered records may be opened now
Openable(c) == IF c.isdec THEN Len(c.bin)
               ELSE LET A == {i \in 1..Len(c.bin) : c.bin[i].ct = "app"} IN
                    IF A = {} THEN Len(c.bin) ELSE (CHOOSE i \in A : \A j \in A : i <= j) - 1
Flush(c) ==
  IF c.err # "" \/ c.bk \in {"ready", "closed"} THEN c
  ELSE IF c.bk = "error" THEN Fail(c, "backend")
  ELSE LET n == Openable(c)
           bad == {i \in 1..n : ~c.bin[i].mac}
           k == IF bad = {} THEN n ELSE (CHOOSE i \in bad : \A j \in bad : i <= j)
           c1 == [c EXCEPT !.encb = <<>>, !.benc = @ \o c.encb, !.bin = SubSeq(@, k + 1, Len(@)),
                           !.bdec = @ \o SubSeq(c.bin, 1, IF bad = {} THEN k ELSE k - 1)]
       IN IF bad = {} THEN c1 ELSE Fail(c1, "backend")
RECURSIVE Incoming(_)
Incoming(c) == IF c.err # "" THEN c
               ELSE IF c.bk = "error" THEN Fail(c, "backend")
               ELSE IF c.bdec = <<>> \/ (Head(c.bdec).ct = "app" /\ ~c.started) THEN c
               ELSE Incoming(Plain([c EXCEPT !.bdec = Tail(@)], Head(c.bdec)))
RECURSIVE Outgoing(_)
Outgoing(c) == IF c.err # "" \/ c.benc = <<>> \/ (Head(c.benc).ct = "app" /\ ~c.started) THEN c
               ELSE Outgoing([c EXCEPT !.benc = Tail(@), !.out = Append(@, Head(c.benc))])
Process(c, rs) ==
  IF c.err # "" THEN c
  ELSE IF \E i \in 1..Len(rs) : rs[i].ct = "junk" THEN Fail(c, "CorruptMessage")
  ELSE Outgoing(Incoming(Flush(Frames(FlushPt(c), rs))))

(* ---- steps -------------------------------------------------------------- *)
Empty(c) == c.bk \notin {"active", "closed"} \/ (c.encb = <<>> /\ c.benc = <<>> /\ c.bin = <<>> /\ c.bdec = <<>>)
Obs(c) == [wr |-> c.out # <<>>, rd |-> c.rpt = 0 /\ ~c.cn /\ (c.ms \/ c.out = <<>>),
           hsk |-> ~(c.ms /\ c.mr), full |-> Sum(c.spt) >= BufLimit, pe |-> c.rpt = 0,
           mt |-> Empty(c), prep |-> c.prep]
Res(c) == IF c.err = "" THEN "ok" ELSE c.err
Min(a, b) == IF a < b THEN a ELSE b

Do(c, e) ==
  CASE e.op = "start" ->
         LET c1 == [Queue(c, Hs(c, ClientHello(c.cfg), 769, FALSE)) EXCEPT !.st = "sh"]
         IN [c |-> c1, out |-> [res |-> "ok"] @@ Obs(c1)]
    [] e.op \in {"recv", "process"} ->
         LET c1 == Process(c, IF e.op = "recv" THEN e.recs ELSE <<>>)
         IN [c |-> c1, out |-> [res |-> Res(c1), pt |-> IF c1.err = "" THEN c1.rpt ELSE 0,
                                tls |-> c1.err = "" /\ c1.out # <<>>] @@ Obs(c1)]
    [] e.op = "write" ->
         LET k == Min(e.n, BufLimit - Sum(c.spt))
             c1 == IF k = 0 THEN c ELSE [c EXCEPT !.spt = Append(@, k)]
         IN [c |-> c1, out |-> [res |-> "ok", n |-> k] @@ Obs(c1)]
    [] e.op = "read" ->
         LET k == Min(e.n, c.rpt)
             c1 == [c EXCEPT !.rpt = @ - k]
         IN [c |-> c1, out |-> [res |-> "ok", n |-> k, same |-> TRUE] @@ Obs(c1)]
    [] e.op = "drain" ->
         LET c1 == [c EXCEPT !.out = <<>>,
                             !.finseen = @ \/ \E i \in 1..Len(c.out) : c.out[i].ct = "hs" /\ c.out[i].m.k = "FIN"]
         IN [c |-> c1, out |-> [res |-> "ok", recs |-> c.out, honest |-> TRUE, left |-> 0] @@ Obs(c1)]
    [] e.op = "notify" ->
         LET c1 == Alert([c EXCEPT !.err = ""], 1, 0)
             c2 == [c1 EXCEPT !.err = c.err]
         IN [c |-> c2, out |-> [res |-> Res(c1)] @@ Obs(c2)]
    [] e.op = "dec" -> LET c1 == [c EXCEPT !.isdec = e.on] IN [c |-> c1, out |-> [res |-> "ok"] @@ Obs(c1)]
    [] e.op = "closed" ->
         LET c1 == [c EXCEPT !.bk = IF @ = "active" THEN "closed" ELSE "error"]
         IN [c |-> c1, out |-> [res |-> IF c.bk = "active" THEN "ok" ELSE "backend"] @@ Obs(c1)]
NewOut(cfg) == [res |-> IF FragOk(cfg) THEN "ok" ELSE "BadMaxFragmentSize"]
=============================================================================
