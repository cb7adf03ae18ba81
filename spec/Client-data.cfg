CONSTANT Family_ = "data"
SPECIFICATION Spec
INVARIANTS HandshakeOrder ClientOrder ServerAuthenticated Negotiated OneHello Confirmed NothingInClear NoAppInClear Sticky OneFatal NoNewDataAfterError NoRenegotiation NoInvention DataOnlyWhenDone Bounded WithinFrag Quiescent ClientProof CertOnlyOnRequest Emit

CHECK_DEADLOCK FALSE
