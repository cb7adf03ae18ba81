------------------------------- MODULE Suites -------------------------------
(* Cipher suite, signature scheme and version negotiation.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ran(s) == {s[q] : q \in 1..Len(s)}
RECURSIVE Keep(_, _)
Keep(Test(_), s) == IF s = <<>> THEN <<>> ELSE (IF Test(s[1]) THEN <<s[1]>> ELSE <<>>) \o Keep(Test, Tail(s))
First(Test(_), s) == LET k == Keep(Test, s) IN IF k = <<>> THEN <<>> ELSE <<k[1]>>

EcdsaSchemes == <<2055, 1539, 1283, 1027>>
RsaSchemes == <<2054, 2053, 2052, 1537, 1281, 1025>>
S(ver, hash, hlen, aead, iv, ex, schemes) == [ver |-> ver, hash |-> hash, hlen |-> hlen, aead |-> aead, iv |-> iv, ex |-> ex, schemes |-> schemes]
(* suite code point -> attributes; RFC 5246/5288/5289/7905/8446 *)
Table == (49199 :> S(771, "SHA256", 32, "AES_128_GCM", 4, 8, RsaSchemes)) @@ (49200 :> S(771, "SHA384", 48, "AES_256_GCM", 4, 8, RsaSchemes))
      @@ (49195 :> S(771, "SHA256", 32, "AES_128_GCM", 4, 8, EcdsaSchemes)) @@ (49196 :> S(771, "SHA384", 48, "AES_256_GCM", 4, 8, EcdsaSchemes))
      @@ (52392 :> S(771, "SHA256", 32, "CHACHA20_POLY1305", 12, 0, RsaSchemes)) @@ (52393 :> S(771, "SHA256", 32, "CHACHA20_POLY1305", 12, 0, EcdsaSchemes))
      @@ (4865 :> S(772, "SHA256", 32, "AES_128_GCM", 0, 0, <<>>)) @@ (4866 :> S(772, "SHA384", 48, "AES_256_GCM", 0, 0, <<>>))
      @@ (4867 :> S(772, "SHA256", 32, "CHACHA20_POLY1305", 0, 0, <<>>))
Ids == DOMAIN Table
Offered == <<49195, 49199>>    \* the suites an MPC-TLS client may negotiate
RsaAlg == 1
EcdsaAlg == 3
SchemeAlg(x) == IF x \in {513, 1025, 1281, 1537, 2052, 2053, 2054} THEN RsaAlg
                ELSE IF x \in {1027, 1283, 1539} THEN EcdsaAlg ELSE 0
Usable(id, alg) == Table[id].ver = 772 \/ \E x \in Ran(Table[id].schemes) : SchemeAlg(x) = alg
Exp(e) ==
  CASE e.ev = "info" -> Table[e.id]
    [] e.ev = "offered" -> Offered
    [] e.ev = "client" -> LET T(x) == x \in Ran(e.server) IN First(T, e.client)
    [] e.ev = "server" -> LET T(x) == x \in Ran(e.client) IN First(T, e.server)
    [] e.ev = "bysig" -> LET T(x) == Usable(x, e.alg) IN Keep(T, e.suites)
    [] e.ev = "byver" -> LET T(x) == Table[x].ver = e.v IN Keep(T, e.suites)
    [] e.ev = "compat" -> \E x \in Ran(e.suites) : Usable(x, SchemeAlg(e.scheme))
    [] e.ev = "resolve" -> LET T(x) == x \in Ran(e.offered) IN Keep(T, Table[e.id].schemes)
    [] e.ev = "resume" -> Table[e.a].hash = Table[e.b].hash
    [] e.ev = "schemealg" -> SchemeAlg(e.scheme)
    [] e.ev = "hashlen" -> <<20, 32, 48, 64, 32>>
    [] e.ev = "eq" -> e.a = e.b
    [] e.ev = "sentinel" -> <<68, 79, 87, 78, 71, 82, 68, 1>>   \* "DOWNGRD" 01, RFC 8446 4.1.3
    [] e.ev = "allversions" -> <<771>>
    [] e.ev = "randoms" -> e.a \o e.b
    [] e.ev = "make" -> (IF e.alg = RsaAlg THEN <<513, 0, 1025, 1281, 1537>> ELSE <<0, 0, 1027, 1283, 1539>>)[e.hash - 1]
    [] e.ev = "versions" -> [p \in 1..Len(e.ask) |-> e.ask[p] \in (Ran(e.on) \cap {771, 772})]
Ok(e) == e.out = Exp(e)
==============================================================================
