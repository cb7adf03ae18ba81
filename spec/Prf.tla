-------------------------------- MODULE Prf ---------------------------------
(* The TLS 1.2 pseudo-random function (RFC 5246, section 5): P_hash over an     *)
(* HMAC given as a table of (message, code) pairs for the secret.               *)
EXTENDS Naturals, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Mac(h, m) == LET k == CHOOSE q \in 1..Len(h) : h[q].m = m IN h[k].d
RECURSIVE PHash(_, _, _, _)
(* a = A(i); n bytes still wanted; H the HMAC under the secret                  *)
PHash(H(_), a, seed, n) ==
  IF n = 0 THEN <<>>
  ELSE LET x == H(a)
           o == H(x \o seed)
       IN SubSeq(o, 1, Min(n, Len(o))) \o PHash(H, x, seed, n - Min(n, Len(o)))
PrfOut(H(_), label, seed, n) == PHash(H, label \o seed, label \o seed, n)
Exp(e) == LET H(m) == Mac(e.h, m) IN PrfOut(H, e.label, e.seed, e.n)
Ok(e) == e.out = Exp(e)
==============================================================================
