-------------------------------- MODULE Names -------------------------------
(* Server names: which strings are DNS names, what goes on the wire for them,    *)
(* and the small byte-level helpers of the TLS layer.                            *)
EXTENDS Integers, Sequences
Digit(c) == c \in 48..57
Alpha(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
Dot == 46
Hyphen == 45
(* labels: a trailing dot is permitted and adds no label *)
RECURSIVE Split(_, _, _)
Split(b, i, cur) == IF i > Len(b) THEN <<cur>>
                    ELSE IF b[i] = Dot THEN <<cur>> \o Split(b, i + 1, <<>>)
                    ELSE Split(b, i + 1, Append(cur, b[i]))
LabelOk(s) == /\ Len(s) \in 1..63
              /\ \A q \in 1..Len(s) : Digit(s[q]) \/ Alpha(s[q]) \/ s[q] = Hyphen
              /\ s[1] # Hyphen /\ s[Len(s)] # Hyphen
Numeric(s) == \A q \in 1..Len(s) : Digit(s[q])
Trim(b) == IF b # <<>> /\ b[Len(b)] = Dot THEN SubSeq(b, 1, Len(b) - 1) ELSE b
DnsOk(b) == /\ Len(b) \in 1..253 /\ Trim(b) # <<>>
            /\ LET ls == Split(Trim(b), 1, <<>>) IN
               /\ \A q \in 1..Len(ls) : LabelOk(ls[q])
               /\ ~Numeric(ls[Len(ls)])
Be(n, w) == LET F[q \in 0..w] == IF q = 0 THEN <<>> ELSE <<(n \div (256 ^ (q - 1))) % 256>> \o F[q - 1] IN F[w]
Sni(b) == LET t == Trim(b) IN Be(0, 2) \o Be(Len(t) + 5, 2) \o Be(Len(t) + 3, 2) \o <<0>> \o Be(Len(t), 2) \o t
Name(e) == IF DnsOk(e.b) THEN [ok |-> TRUE, sni |-> e.b, enc |-> <<1, Len(e.b)>> \o e.b, ext |-> Sni(e.b)]
           ELSE [ok |-> FALSE]
(* DER length and sequence header in front of n bytes                            *)
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Digits(n \div 256) \o <<n % 256>>
DerLen(n) == IF n < 128 THEN <<n>> ELSE <<128 + Len(Digits(n))>> \o Digits(n)
Exp(e) ==
  CASE e.ev = "name" -> Name(e)
    [] e.ev = "aad" -> e.seq \o <<e.typ>> \o Be(e.ver, 2) \o Be(e.len % 65536, 2)
    [] e.ev = "der" -> <<48>> \o DerLen(e.n)
    [] e.ev = "subjects" -> [q \in 1..Len(e.names) |-> <<48>> \o DerLen(Len(e.names[q])) \o e.names[q]]
    [] e.ev = "randoms" -> e.a \o e.b
    [] e.ev = "sid" -> (e.a = e.b)
    [] e.ev = "ecdh" -> e.extra = 0
    [] e.ev = "root" -> [n |-> Len(e.names), empty |-> e.names = <<>>]
Ok(e) == e.out = Exp(e)
==============================================================================
