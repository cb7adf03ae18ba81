"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, tech=None, note=None, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state, tech=tech, note=note, level=level, na=na))


TC = "crates/tls-core/src/"

prop("T01", "TLS records are reassembled identically under any chunking of the stream",
     "Records delivered by the record deframer are exactly the well-formed records of the received byte stream, in order, complete and as soon as their last byte is in, however the stream is split into reads and whether it is read synchronously or asynchronously. "
     "A header with an unknown content type, a version outside 3.x, an empty non-application-data body or a length of 18432 or more makes the stream permanently invalid and nothing after it is delivered. "
     "Reads never take more than one maximal record, a failing source changes nothing, and pending data is reported exactly while frames or partial bytes are held.",
     ["inputs", "schedules", "fault_sequences"], "all streams, all chunkings, all failure points, sync and async",
     "Unit tests feed a handful of canned records in a few chunkings; the number of splits of a stream is exponential and boundary cases (header split, buffer full, error after partial) are not sampled.",
     [TC + "msgs/deframer.rs", TC + "msgs/message.rs"],
     [("frame extraction and buffer shift", TC + "msgs/deframer.rs MessageDeframer"), ("record header rules", TC + "msgs/message.rs OpaqueMessage::read")],
     "the bytes a read consumed, the frames it appended, the desync flag and the pending flag after every call",
     state="buffer position in the stream, queued frames, desync flag",
     tech="TLA+ model Deframer checked by TLC; TLC behaviours and random runs replayed on the real deframer and validated by a TLC trace spec",
     note="All chunkings of all streams of <=3 (4) segments at scaled sizes in the model; real sizes on the code through one run per model transition and seeded random streams.")

TV = "TLA+ model checked by TLC; model behaviours and random runs executed on the real code and validated by a TLC trace specification"

prop("T02", "Handshake messages are re-joined identically under any record split",
     "Handshake messages taken out of the joiner are exactly the messages concatenated in the handshake records given to it, each with its type, content and the raw bytes that enter the transcript, in order and once, however they were split over or packed into records. "
     "A message announcing a body above the limit or whose body does not decode fails the joiner, records of other types pass through untouched only while no handshake fragment is held, and a held fragment is reported as such.",
     ["inputs", "schedules"], "all message streams and all splits of them into records",
     "Tests split a few messages at a few places; splits are exponential in number and the interesting ones fall inside a 4-byte header or pack several messages.",
     [TC + "msgs/hsjoiner.rs"],
     [("buffering and message extraction", TC + "msgs/hsjoiner.rs HandshakeJoiner")],
     "accepted/rejected records, the messages popped, the emptiness flag", state="buffered handshake bytes, frames", tech=TV,
     note="All splits of all streams of <=3 messages in the model at a scaled limit; real sizes by replay of one run per transition and seeded random streams.")

prop("T03", "Outgoing messages are fragmented without loss, in order and within the limit",
     "Every outgoing plaintext message is split into fragments whose concatenation is the message, which all keep its type and version, and none of which is longer than the configured record size minus the record header; no payload gives no fragment. "
     "Only record sizes from 32 to 16389 bytes are accepted and a rejected one changes nothing.",
     ["inputs", "histories"], "all payload lengths, all configured sizes, all sequences of reconfigurations and messages",
     "Tests check one or two lengths; the boundary is the exact multiple of the fragment size under each configuration.",
     [TC + "msgs/fragmenter.rs"], [("chunking and size validation", TC + "msgs/fragmenter.rs MessageFragmenter")],
     "type, version and bytes of every fragment, the result of set_max_fragment_size", state="configured maximum", tech=TV,
     note="All configure/fragment sequences of length 3 at scaled sizes; boundary and random real sizes on the code.")

prop("T04", "Records and their payloads decode and encode by one grammar, both ways",
     "A byte string is decoded as a TLS record exactly when its header is legal and its body complete, each failure being reported as too short or as the right illegality, and the record encodes back to the bytes consumed. "
     "Payloads decode by content type (alert, change-cipher-spec, handshake, opaque application data) with nothing left over, and a built message frames to its encoding with the type, version and length of its content.",
     ["inputs"], "all byte strings as records and payloads, all built messages",
     "Decoders must be right on every byte string an attacker can send; tests hold a few.",
     [TC + "msgs/message.rs", TC + "msgs/alert.rs", TC + "msgs/ccs.rs", TC + "msgs/base.rs"],
     [("record and payload codec", TC + "msgs/message.rs"), ("alert codec", TC + "msgs/alert.rs")],
     "decode result, error class, bytes consumed, re-encoding", tech=TV,
     note="Boundary products of header fields and all payloads of up to 5 bytes over a small alphabet from the model; random records above that.")

prop("T05", "Handshake messages decode exactly by the TLS grammar and re-encode unchanged",
     "A byte string is accepted as a handshake message of a protocol version exactly when it follows that version's grammar: every length prefix is consistent with its container, nothing trails, no vector is too short, names and key shares have their legal form. "
     "What is accepted has the field values the grammar assigns, and encodes back to the same bytes when the encoding is canonical.",
     ["inputs"], "all byte strings, for TLS 1.2 and 1.3",
     "The input space is unbounded and adversarial: a wrong length bound or skipped trailing byte is invisible to round-trip tests on well-formed samples.",
     [TC + "msgs/handshake.rs", TC + "msgs/codec.rs", TC + "msgs/base.rs"],
     [("message and extension codec", TC + "msgs/handshake.rs"), ("vector codec", TC + "msgs/codec.rs")],
     "accept/reject, the decoded fields as a token sequence, the re-encoding", tech="TLA+ grammar (Wire) as the reference decoder, its prefix-freeness and injectivity checked by TLC; grammar-derived and mutated messages decoded by the real code and validated by a TLC trace specification",
     note="1764 grammar-derived messages (each differing from the default in one component), their mutations, and seeded random messages and mutations.")

prop("T06", "Queries on handshake messages see the extensions that are there",
     "Every accessor of a client hello, server hello, certificate request, certificate entry or session ticket returns the content of the extension of that kind that the message carries, and nothing when it carries none; duplicate detection reports exactly the messages in which an extension type repeats. "
     "Replacing pre-shared-key binders changes only the last binder of a trailing offer.",
     ["inputs"], "all messages, with repeated, unknown and reordered extensions",
     "Whether an accessor inspects the right extension for every combination and order cannot be sampled by one message per accessor.",
     [TC + "msgs/handshake.rs"], [("accessors and duplicate detection", TC + "msgs/handshake.rs ClientHelloPayload, ServerHelloPayload, ...")],
     "the result of each accessor", tech="TLA+ definition of every query over the grammar's tokens; real accessors run on model-derived and random messages, validated by a TLC trace specification",
     note="All grammar-derived messages plus seeded random messages built to repeat and reorder extensions.")

prop("T07", "Registry values keep their IANA code points in both directions",
     "Every value of the 22 registries (record and handshake types, versions, cipher suites, curves, signature schemes, alerts, extensions and so on) decodes from and encodes to the code point it has in the TLS registries. "
     "Values without a name survive unchanged as unknown.",
     ["inputs"], "every 8- and 16-bit value of every registry",
     "A test would have to list every code point; the suite checks a handful.",
     [TC + "msgs/enums.rs", TC + "msgs/macros.rs"], [("registry enumerations", TC + "msgs/enums.rs enum_builder!")],
     "the decoded name and re-encoded value", tech="TLA+ tables of the registries; every code point run through the real codec and validated by a TLC trace specification",
     note="Exhaustive over all 8-bit and 16-bit values. Tables were written against the registries; cipher suites cross-checked with openssl.")

prop("T08", "Reading bytes never leaves the buffer and nested readers stay inside theirs",
     "Every read from the byte reader returns exactly the next bytes and advances past them, or returns nothing and leaves the position alone when fewer are left. "
     "A sub-reader is confined to its slice, and what is left, used and pending is always consistent with the position.",
     ["inputs", "histories"], "all buffers and all sequences of reads, sub-readers and rests",
     "Off-by-one positions show only after particular sequences.",
     [TC + "msgs/codec.rs"], [("cursor", TC + "msgs/codec.rs Reader")],
     "bytes returned, left, used, any_left after every operation", state="cursor", tech=TV,
     note="Every operation sequence of depth 4 reaching a new cursor state over 8 buffers; seeded random sequences.")

prop("T09", "The TLS 1.2 PRF is P_SHA256 for every length of every argument",
     "The pseudo-random function fills the output with exactly the leading bytes of P_SHA256 under the secret over label followed by seed (RFC 5246, section 5), for every output length, secret, label and seed, so that shorter outputs are prefixes of longer ones.",
     ["inputs"], "all secrets, labels, seeds and output lengths",
     "Three test vectors of fixed lengths do not exercise partial blocks, zero length or secrets longer than a hash block.",
     [TC + "prf.rs"], [("P_hash iteration", TC + "prf.rs prf")], "the bytes written",
     tech="TLA+ P_hash over a recorded HMAC table (computed by ring); prefix and length laws model checked; real outputs validated by a TLC trace specification",
     note="The HMAC itself is taken from ring, the composition is decided by the specification. 2800 length combinations (a quarter per quick run) plus random ones.")

prop("T10", "A handshake is accepted only for a trusted certificate and its own signature",
     "Verification of recorded handshake data succeeds only if there is a certificate, the chain is accepted for the given name and time with the timestamps and OCSP response that were sent, and the signature over client random, server random and key-exchange parameters verifies under that very end-entity certificate. "
     "Otherwise it fails with the error of a check that failed.",
     ["inputs", "fault_sequences"], "all chains, signatures, randoms, parameters, names and times",
     "One happy path and one failure per check cannot exclude a swapped argument, wrong certificate or skipped check in some combination.",
     [TC + "handshake.rs", TC + "verify.rs", TC + "cert.rs", TC + "ke.rs"],
     [("sequence of checks", TC + "handshake.rs HandshakeData::verify")], "result, arguments the verifier was given", tech="TLA+ model of identity verification; model-derived faults executed with real certificates and keys, random handshakes against a recording verifier; validated by a TLC trace specification",
     note="4584 combinations of chain faults and signature faults; signature algorithm ECDSA P-256 here, all others under T13.")

prop("T11", "A server certificate is accepted only with a valid chain, in time, for the name",
     "A certificate chain is accepted exactly when some path of untampered certificates leads from the end entity through certification authorities to a trusted root, every certificate on it is within its validity period and fit for server authentication, and the end entity names the server. "
     "Trust comes only from the root store; additional certificates never turn acceptance into rejection.",
     ["inputs"], "all chains, root stores, names and times",
     "The combinations of chain shapes, certificate faults and times are far more than fixtures can hold.",
     [TC + "verify.rs", TC + "anchors.rs"], [("chain and name verification", TC + "verify.rs WebPkiVerifier::verify_server_cert")],
     "accept or the class of the error", tech="TLA+ path validation model checked by TLC; every model scenario built as real DER certificates and verified by the real code, validated by a TLC trace specification",
     note="17 chain shapes x every single fault (thorough: pairs, 42206 scenarios). P-256 certificates; name constraints are not modelled.")

prop("T12", "Certificate timestamps are enforced as the transparency policy says",
     "With logs configured and the policy in date, a certificate with timestamps is accepted only if one of them is valid at that time; timestamps of unknown logs or versions are passed over, a malformed, forged or future one is fatal, and the error says which. "
     "Without logs, after the deadline or without timestamps nothing is enforced.",
     ["inputs", "histories"], "all lists of timestamps, log sets, deadlines and times",
     "The outcome depends on the order of good, soft-failing and fatal timestamps, which tests do not enumerate.",
     [TC + "verify.rs"], [("policy", TC + "verify.rs CertificateTransparencyPolicy::verify")], "accept or the timestamp error", tech=TV,
     note="All lists of up to two timestamps of nine kinds and three of four kinds under 18 policies.")

prop("T13", "Handshake signatures verify only with the scheme's algorithm and the right key",
     "A handshake signature is accepted exactly when it was made by the certificate's key over the very message with an algorithm the offered scheme permits: in TLS 1.2 either curve with the scheme's hash, in TLS 1.3 the scheme's curve only and never PKCS#1; unadvertised schemes are refused. "
     "The algorithm reported for a verified signature is the one that verified it.",
     ["inputs"], "all keys, schemes, signatures and messages",
     "The product of key types, schemes and signature algorithms is not covered by any test, and accepting one wrong pair is an authentication hole.",
     [TC + "verify.rs"], [("scheme to algorithm mapping", TC + "verify.rs convert_scheme, convert_alg_tls13"), ("algorithm report", TC + "verify.rs SignatureAlgorithm::from_alg")],
     "accept, reported algorithm or error class", tech="TLA+ tables of schemes and algorithms; full product of keys, schemes and signatures run through the real verifier and validated by a TLC trace specification",
     note="6 keys x 45 OpenSSL-made signatures x 22 schemes x 3 functions x 4 tamperings. This property exposed the P-384 defect fixed in /repo.")

prop("T14", "Suite and scheme negotiation picks the best common option and nothing else",
     "The chosen suite is the first of the preferring side's list that the other side offers, and none when nothing is common; filters by version, signature algorithm and scheme keep exactly the usable suites in order. "
     "Every suite has the hash, AEAD and nonce layout its registration gives it, and only AES-128-GCM suites are offered by default.",
     ["inputs"], "all offers and support lists", "Selection order over all pairs of lists is not sampled by tests.",
     [TC + "suites/mod.rs", TC + "suites/tls12.rs", TC + "suites/tls13.rs", TC + "versions.rs"],
     [("selection", TC + "suites/mod.rs choose_ciphersuite_*"), ("filters", TC + "suites/mod.rs reduce_given_*")], "selected suites and attributes", tech=TV,
     note="9325 model cases (ordered lists of up to 3), schemes below 0x1000 exhaustively, random longer lists.")

prop("T15", "Server names, record additional data and DER headers are encoded exactly",
     "Only syntactically valid DNS names become server names, and the name sent in the SNI extension is that name without a trailing dot in the extension's exact wire form. "
     "The AEAD additional data of a record is sequence number, type, version and length in order, DER headers give the exact length, and root subjects and session ids compare and encode by content.",
     ["inputs"], "all strings, sequence numbers, lengths", "Length-of-length and label-length boundaries are only partially sampled by tests.",
     [TC + "dns.rs", TC + "msgs/handshake.rs", TC + "cipher.rs", TC + "x509.rs", TC + "anchors.rs"],
     [("name syntax and SNI", TC + "dns.rs, msgs/handshake.rs make_sni"), ("additional data", TC + "cipher.rs make_tls12_aad"), ("DER", TC + "x509.rs")],
     "encodings and verdicts", tech=TV, note="2825 model strings; random helpers.")

HC = "crates/harness/core/src/"
prop("H01", "A benchmark file expands to exactly the runs it describes",
     "Every item yields as many runs as its own sample count, its group's or the given default says (an override replaces all), each run with the item's own value of every setting, else its group's, else the documented default. "
     "Runs come sorted by group and name, keeping file order among equals, and an undefined group is refused.",
     ["inputs"], "all benchmark files", "Precedence of item, group and default over ten settings is a product that fixtures do not cover.",
     [HC + "bench.rs"], [("expansion", HC + "bench.rs BenchItems::to_benches")], "the runs produced", tech=TV,
     note="Every setting x source, repeated and missing groups, orders of three items; random benchmark files in thousands.")

prop("H02", "The network plan gives each role one distinct address in the subnet",
     "For any subnet with at least ten hosts the roles get its first ten host addresses, pairwise distinct and each with its fixed port; smaller subnets are refused.",
     ["inputs"], "all subnets", "Host arithmetic at small or unaligned prefixes is not tested.",
     [HC + "network.rs"], [("address assignment", HC + "network.rs NetworkConfig::new")], "addresses and ports", tech=TV,
     note="All prefix lengths of five networks; random networks.")

prop("H03", "Harness modes, outputs, statuses and measurements keep their meaning",
     "IO modes parse case-insensitively and print as they parse, a command's output can be taken only as the kind it is, a test counts as passed only if it says so, and a measurement carries its run's configuration and metrics each under its own name. "
     "Every command, output and configuration survives a trip through JSON unchanged.",
     ["inputs"], "all commands, outputs, configurations and measurements", "A swapped field or a variant lost in serialization is not visible to the existing tests.",
     [HC + "lib.rs", HC + "bench.rs", HC + "rpc.rs", HC + "test.rs"], [("output accessors and measurement", HC + "rpc.rs, " + HC + "bench.rs")], "values and errors", tech=TV,
     note="One perturbation per field; random values through JSON.")

prop("F01", "The test server answers routes as documented and guards protected ones",
     "A connection is served only to peers without a certificate or with one issued by the fixture authority and whose key they hold; one request gets one response: sized data, the JSON or HTML document asked for, 404, 405, and protected documents only for the exact token, with or without the Bearer scheme.",
     ["inputs", "histories"], "all requests, query strings, credentials and client certificates", "The existing tests call two routes without TLS.",
     ["crates/server-fixture/server/src/lib.rs", "crates/server-fixture/certs/src/lib.rs"],
     [("routing and authorization", "crates/server-fixture/server/src/lib.rs app, AuthenticatedUser"), ("client authentication", "crates/server-fixture/server/src/lib.rs bind")],
     "HTTP response or refusal over TLS", tech=TV, note="550 model requests over real TLS connections plus random ones. A shutdown request may or may not be answered, both are allowed.")

prop("F02", "The echo server returns each body unchanged, uppercased or reversed",
     "Every request on a connection gets exactly one response, in order, whose body is the request's body unchanged, with ASCII letters uppercased, or reversed, by route; other routes get 404. Chunking of the request does not matter.",
     ["inputs", "histories", "schedules"], "all bodies, chunkings and request sequences", "Tests echo one short body.",
     ["crates/tls-server-fixture/src/lib.rs"], [("echo service", "crates/tls-server-fixture/src/lib.rs bind_test_server_hyper")], "HTTP responses over TLS", tech=TV,
     note="All sequences of three of eight requests and all bodies x chunkings; a 404 may hang up on an unread body.")

prop("F03", "The record server ends the connection as commanded, and only then",
     "The server answers every whole command record in order and ends the connection exactly as the first closing command says (close notify, plain close, corrupted message, bad MAC or alert), ignoring everything after it; a client's own close is acknowledged late exactly if a delay was commanded.",
     ["inputs", "histories"], "all command sequences and record splits", "Tests of users rely on this behaviour but nothing checks it.",
     ["crates/tls-server-fixture/src/lib.rs"], [("command loop", "crates/tls-server-fixture/src/lib.rs bind_test_server")], "records and end of stream seen by a TLS client", tech=TV,
     note="All command sequences of length 3 in TLS 1.2 and 1.3 under virtual time, cut records, random ones.")

prop("F04", "Every message and certificate fixture is what its name says",
     "Each HTTP fixture is a complete message of the kind its name announces (method, empty header, chunking, content type, body), and each certificate fixture verifies under its authority and belongs to its key.",
     ["inputs"], "all fixtures", "Nothing tests the fixtures; a wrong include goes unnoticed and silently weakens the tests that use it.",
     ["crates/data-fixtures/src/http.rs", "crates/server-fixture/certs/src/lib.rs", "crates/tls-server-fixture/src/lib.rs"],
     [("fixture table", "crates/data-fixtures/src/http.rs")], "kind of each fixture", tech=TV, note="Exhaustive: 12 messages, 3 certificates. Exposed the wrong OK_EMPTY_HEADER fixed in /repo.")

CO = "crates/core/src/"
prop("C01", "A partial transcript shows exactly the authenticated bytes and nothing else",
     "Extracting ranges of a transcript yields a partial transcript holding exactly those bytes at their positions and zero elsewhere; unions, insertions and fills change only the positions they name and never an authenticated byte they do not own. "
     "Its serialized form carries the authenticated bytes only, restores to the same transcript, and a form whose ranges, lengths and data disagree is refused.",
     ["inputs", "histories"], "all transcripts, range sets, histories of operations and serialized forms",
     "Privacy and integrity hinge on index arithmetic over arbitrary range sets; tests use two or three contiguous ranges.",
     [CO + "transcript.rs"], [("partial transcript operations", CO + "transcript.rs PartialTranscript"), ("compressed form", CO + "transcript.rs CompressedPartialTranscript, validation")],
     "bytes, authenticated sets, serialized fields after every operation", state="partial transcript", tech=TV,
     note="All operation sequences of depth 2 (model: 3) over 4-byte transcripts, random histories on the code. The unavailable crates rangeset and others are replaced by shims (DESIGN.md).")

prop("C02", "Commit and prove configurations hold exactly the ranges that were asked for",
     "A commit configuration requests, for each accepted call, exactly that range, direction and algorithm, once; a prove configuration reveals exactly the union of the accepted reveals and remembers identity and commitment requests. "
     "A range outside the transcript is refused and changes nothing.",
     ["inputs", "histories"], "all sequences of builder calls on all transcripts",
     "The builders are stateful; the result of interleaved calls with default algorithms and rejected ranges is not tested.",
     [CO + "transcript/commit.rs", CO + "config/prove.rs"], [("commit builder", CO + "transcript/commit.rs TranscriptCommitConfigBuilder"), ("prove builder", CO + "config/prove.rs ProveConfigBuilder")],
     "results of calls, the request and configuration built", state="builder", tech=TV,
     note="All sequences of up to 2 commit and 3 proving operations; random sequences.")

prop("C03", "A transcript proof is accepted only if commitments open to all it reveals",
     "Verification of a transcript proof returns the revealed data only if its length is the connection's, every hash opening matches one of the given commitments in direction, ranges, algorithm, blinder and plaintext, and openings cover the revealed positions exactly. "
     "Anything else is an error, and what is returned is what was committed.",
     ["inputs", "fault_sequences"], "all commitments, proofs and tamperings",
     "A verifier must be right for every malicious proof; tests tamper with a few fields of one honest proof.",
     [CO + "transcript/proof.rs", CO + "transcript/hash.rs", CO + "hash.rs"], [("verification", CO + "transcript/proof.rs TranscriptProof::verify_with_provider")],
     "accept and the transcript returned, or refusal", tech=TV,
     note="17154 model proofs (half per quick run) and random proofs with faults; hashes are real, the specification treats them as ideal.")

prop("C04", "A proof can be built exactly for what commitments cover and then verifies",
     "Ranges can be revealed exactly when they lie in the transcript and are covered by commitments; a proof is built exactly when the commitments inside the query, tried in the preferred order, cover all of it, and it uses only such commitments. "
     "Every proof built verifies and shows exactly what was asked for.",
     ["inputs", "histories"], "all commitments, queries and preferences",
     "Covering a range set by overlapping commitments of several kinds is combinatorial.",
     [CO + "transcript/proof.rs"], [("cover selection", CO + "transcript/proof.rs TranscriptProofBuilder")],
     "results of calls, the openings chosen, the verified proof", state="query", tech=TV,
     note="Every set of 6 commitments with up to 2 reveals and 5 preference orders (35520, a quarter per quick run). The set cover itself comes from the rangeset shim.")

prop("C05", "Merkle proofs show exactly the leaves they claim; hash types keep their meaning",
     "A Merkle proof verifies exactly when every claimed position holds the claimed leaf of the tree with that root under that algorithm; missing, added, duplicated or moved claims and proofs of other trees are refused. "
     "Hash values keep length and bytes, prefix and blinder enter the hash as defined, and only algorithms registered or built in are served.",
     ["inputs", "fault_sequences"], "all trees, claims and tamperings; all hash inputs",
     "Soundness is a statement on all wrong claims and trees of all shapes, including odd sizes.",
     [CO + "merkle.rs", CO + "hash.rs"], [("proof", CO + "merkle.rs MerkleProof::verify"), ("hash values and providers", CO + "hash.rs")],
     "accept or refuse, hash values", tech=TV,
     note="Every claim of up to 3 leaves on trees of up to 6 leaves with every single fault; the rs_merkle crate is replaced by a shim that follows its published algorithm.")

prop("C06", "The server is identified by chain, name, key exchange and signature alike",
     "Handshake data identifies a server exactly when its certificate chain leads to a trusted root at the connection time, it is valid for the expected name, the recorded ephemeral key is the session's, and the end-entity key signed this key exchange with the declared algorithm. "
     "Any other chain, name, key, random, signature, algorithm or absent certificate is an error of that kind; certificates alone are judged likewise.",
     ["inputs", "fault_sequences"], "all handshake data, keys, algorithms and times, honest or not",
     "This is the only link between transcripts and servers; tests check two recorded servers and a few faults.",
     [CO + "connection.rs", CO + "webpki.rs"], [("handshake data", CO + "connection.rs HandshakeData::verify"), ("chain and name", CO + "webpki.rs ServerCertVerifier")],
     "accepted, or the class of the error", tech=TV,
     note="17 chain shapes with every single fault, all keys x signatures x declared algorithms, captured sessions with 13 faults, random combinations. Real ring and webpki, real P-256/P-384/RSA/Ed25519 keys.")

prop("C07", "A captured TLS 1.2 session is parsed into exactly the transcript it carried",
     "From captured or supplied parts the TLS transcript holds exactly the session's records (sequence number, type, nonce, ciphertext, tag, plaintext where known), certificates, signature, algorithm, randoms, ephemeral key, and the handshake hashes over exactly the messages TLS prescribes. "
     "Captures that are malformed, incomplete, of another group or version, or out of order are refused; text is complete or the first gap is named.",
     ["inputs", "histories"], "all captures, record sequences and combinations of supplied parts",
     "Tests parse one recorded session; hashes and record splitting depend on optional messages, tickets and sizes.",
     [CO + "transcript/tls.rs"], [("builder and parsing", CO + "transcript/tls.rs TlsTranscriptBuilder")],
     "every field of the transcript built, or refusal", tech=TV,
     note="9638 captures of the model (a quarter per quick run) and random ones. Exposed the session hash defect fixed in /repo. What follows complete application data is not claimed.")

prop("C08", "Configurations and connection types mean the same to both parties",
     "A configuration is built exactly when its mandatory settings are given and its limits are consistent, holds the last value of each setting with the documented defaults, and arrives at the peer with the same values or, when inconsistent, not at all. "
     "Server names, versions, key types, signature algorithms and content types map to their TLS values and back without loss.",
     ["inputs", "histories"], "all sequences of settings, all received configurations, all code points",
     "Both parties enforce limits on the strength of agreed configuration; a received one bypasses the builder.",
     [CO + "config/tls_commit/mpc.rs", CO + "config/tls.rs", CO + "config/verifier.rs", CO + "connection.rs"],
     [("limits", CO + "config/tls_commit/mpc.rs"), ("code points", CO + "connection.rs")],
     "configuration built and received, mapped values", state="settings", tech=TV,
     note="All combinations of MPC settings around the limits (1.5k), names, all content types, versions, groups; random sequences.")

AT = "crates/attestation/src/"
prop("D01", "The signed header commits to every field of the attestation",
     "The root in an attestation's header is the Merkle root, under its algorithm, of the canonical bytes of every field of the body - key, connection, ephemeral key, certificate commitment, each extension and transcript commitment - each hashed with the domain of its type, in order of identifiers. "
     "The signed bytes are the canonical bytes of identifier, version and root; different attestations have different bytes.",
     ["inputs"], "all bodies",
     "Integrity of everything attested rests on no field being left out or ambiguous; tests compare trees with themselves.",
     [AT + "lib.rs", AT + "serialize.rs", AT + "extension.rs", AT + "connection.rs"], [("fields and root", AT + "lib.rs Body::hash_fields, root"), ("canonical bytes", AT + "serialize.rs")],
     "leaves, tree shape and bytes signed", tech=TV,
     note="Bodies with every boundary value of every field and random ones; the specification computes the bytes, the harness hashes them.")

prop("D02", "A notary attests exactly what was requested and it observed, or refuses",
     "A request is accepted exactly when its signature and hash algorithms are among those configured and its extensions pass the configured validator (none by default); an attestation is built exactly when connection and ephemeral key were set and the provider has both algorithms. "
     "It then holds the request's certificate commitment and extensions first, the notary's additions, the last values set, a fresh identifier, and a valid signature of the header by that signer.",
     ["inputs", "histories"], "all configurations, requests and sequences of settings",
     "The notary must not sign what it did not observe; builder paths multiply and tests walk a few.",
     [AT + "builder.rs", AT + "config.rs", AT + "extension.rs"], [("accept and build", AT + "builder.rs AttestationBuilder"), ("configuration", AT + "config.rs")],
     "stage of refusal, or every field of the attestation", state="builder", tech=TV, note="253 model notaries, random ones.")

prop("D03", "A prover accepts only an attestation that is sound and fits its request",
     "A prover's validation accepts an attestation exactly when it carries the requested algorithms, certificate commitment and extensions, its body is the one the header commits to, and the header is signed by the key in the body. "
     "What is accepted can be presented; what cannot be presented is an error, never a panic.",
     ["inputs", "fault_sequences"], "all requests and all attestations a notary may return",
     "The notary may be malicious; tests corrupt one field of one attestation.",
     [AT + "request.rs", AT + "proof.rs", AT + "lib.rs"], [("validation", AT + "request.rs Request::validate"), ("body proof", AT + "proof.rs BodyProof")],
     "accepted or refused; presentation made or refused", tech=TV,
     note="Every single change of an attestation in 6 layouts with 4 signature and 4 hash algorithms, every pair followed by re-rooting or re-signing (18.8k, a quarter per quick run), random sequences. Exposed two defects fixed in /repo.")

prop("D04", "A verifier accepts a presentation only as the notary signed it",
     "A presentation is accepted exactly when every field shown sits in the tree whose root the header holds, and the header carries a valid signature by the key shown under a known algorithm. "
     "Its identity and transcript must match the attested commitments and connection, and the verifier learns exactly the attested values, revealed bytes, extensions and, if presented, the server name.",
     ["inputs", "fault_sequences"], "all presentations, honest or forged, by provers holding keys of their own",
     "Soundness against every forged presentation; tests try some.",
     [AT + "presentation.rs", AT + "proof.rs", AT + "connection.rs"], [("presentation", AT + "presentation.rs Presentation::verify"), ("attestation proof", AT + "proof.rs AttestationProof::verify")],
     "accept with the values learnt, or refuse", tech=TV,
     note="10.4k forgeries of the model (a third per quick run), random sequences of changes. That a presentation may omit fields by a subset proof is documented design and not judged.")

prop("D05", "The certificate commitment binds to exactly the handshake that was recorded",
     "A request commits to the canonical bytes of the recorded certificates, algorithm, signature, randoms and ephemeral key with a fresh 16-byte blinder under the requested algorithm, and is built exactly when name, handshake data, transcript and hasher are there. "
     "An opening identifies the server exactly when it is the one committed to and its handshake data verifies for the attested time, ephemeral key and claimed name.",
     ["inputs", "fault_sequences"], "all handshake data, requests and openings",
     "Binding of a certificate to the session hinges on every part entering the commitment.",
     [AT + "connection.rs", AT + "request/builder.rs", AT + "secrets.rs"], [("commitment and opening", AT + "connection.rs ServerCertOpening, ServerIdentityProof"), ("request builder", AT + "request/builder.rs")],
     "bytes committed to, request and secrets; accept or refuse", tech=TV, note="Every boundary of every part (165), all pairs of 10 faults with 4 algorithms.")

prop("D06", "Signatures verify exactly for the message, key and algorithm that made them",
     "A signature made by a configured signer has the size and form of its algorithm and verifies exactly with that signer's key under the same algorithm over the same message; altered, truncated or malformed signatures and keys are errors. "
     "Only valid secret keys make signers, and custom algorithm identifiers are exactly those from 128.",
     ["inputs", "fault_sequences"], "all keys, messages, signatures and algorithm pairs",
     "Cross-algorithm and malformed inputs are many; tests verify one honest signature each.",
     [AT + "signing.rs"], [("signers and verifiers", AT + "signing.rs")], "verifies or refused", tech=TV,
     note="997 model combinations and random ones. The unavailable k256/p256 crates are replaced by a shim implementing ECDSA on both curves.")

MT = "crates/mpc-tls/src/client/"
TE = "TLA+ model of the client checked by TLC against families of servers and applications; every maximal behaviour and random connections are executed on the real client with a transparent record backend, and validated by a TLC trace specification"
prop("E01", "The client completes a handshake only in the order TLS prescribes",
     "The client accepts ServerHello, Certificate, an optional CertificateStatus it had offered, ServerKeyExchange, an optional CertificateRequest, ServerHelloDone, ChangeCipherSpec and Finished, each once and in this order, warnings aside. "
     "Any other message at any point, or one that does not parse, ends the connection with the alert due and an error naming what came and what was expected, and application data counts only after all of it.",
     ["histories", "inputs"], "all sequences of server messages",
     "State machine attacks (skipped, repeated, reordered messages) are about sequences no test walks.",
     [MT + "hs.rs", MT + "tls12.rs", MT + "check.rs", MT + "conn.rs"], [("states", MT + "tls12.rs State::handle"), ("message checks", MT + "check.rs")],
     "result of processing, records written, state flags after every step", state="handshake state", tech=TE,
     note="27 messages at every point of 6 handshakes; random connections. Backend (2PC) replaced by a transparent stand-in with the same states.")

prop("E02", "The client keys a session only with the server its certificate names",
     "The key exchange is completed, and anything after it sent or accepted, only if the chain is valid for the requested name, and the key exchange parameters with both randoms of this session carry a valid signature of the leaf key, of a kind the suite allows, over a supported group. "
     "The backend is given exactly once exactly what the server sent: random, key share, chain, OCSP response, SCTs, parameters and signature.",
     ["inputs", "fault_sequences"], "all chains, signatures, signed contents and parameters",
     "A proof of TLS data is worth what the authentication of its server is worth; combinations are not sampled.",
     [MT + "tls12.rs", MT + "hs.rs"], [("verification and key exchange", MT + "tls12.rs ExpectServerDone"), ("collected details", MT + "tls12.rs ExpectServerKx")],
     "result, alert, what the backend received", state="collected server details", tech=TE, note="593 combinations and random ones.")

prop("E03", "The client accepts only what it offered",
     "A ServerHello is accepted exactly when it selects TLS 1.2, no compression, an offered cipher suite, an offered application protocol, uncompressed points if it mentions points, well-formed SCTs, and no extension twice or unsolicited (renegotiation info aside). "
     "Otherwise the connection ends with the alert prescribed for the deviation.",
     ["inputs"], "all ServerHellos against all configurations",
     "Downgrades and unsolicited extensions are combinations of fields.",
     [MT + "hs.rs", MT + "tls12.rs"], [("server hello checks", MT + "hs.rs ExpectServerHello"), ("TLS 1.2 hello", MT + "tls12.rs CompleteServerHelloHandling")],
     "result and alert", state="offer", tech=TE, note="Extension sets, suites, versions and compression methods over 42 configurations (1062).")

prop("E04", "The client sends exactly the messages of its configuration, framed as configured",
     "The client's first record is one ClientHello with the backend's random, the configured suites and TLS 1.2, and server name, protocols, groups, schemes, status and SCT requests as configured and nothing else. "
     "Its later flight is exactly certificate (if asked), key exchange with the backend's share, certificate verify (if able), ChangeCipherSpec and Finished, in records no larger than configured, with every byte written exactly once whatever the transport takes; a fragment size outside the limits is refused.",
     ["inputs", "schedules"], "all configurations, all acceptances of the transport",
     "What is on the wire under partial writes and small fragments is not looked at by tests.",
     [MT + "hs.rs", MT + "conn.rs", MT + "config.rs", MT + "vecbuf.rs"], [("client hello", MT + "hs.rs emit_client_hello"), ("output buffer", MT + "vecbuf.rs"), ("records", MT + "conn.rs queue_tls_message")],
     "records the server receives", state="output buffer", tech=TE, note="42 configurations, 252 client authentications, 27 layouts of flights; random connections with partial writes.")

prop("E05", "The handshake is confirmed over exactly the messages exchanged",
     "The client's Finished, its certificate signature and the server Finished it accepts cover exactly the handshake messages exchanged, in order, however they were cut into records. "
     "A Finished that is wrong, short, or for the other side is a decrypt error, a key change in the middle of a message is refused, and everything after ChangeCipherSpec is protected.",
     ["inputs", "schedules"], "all flights and all ways to cut and join them",
     "Fragment boundaries and transcript hash are only exercised in their simplest form by tests.",
     [MT + "tls12.rs", MT + "hash_hs.rs", MT + "conn.rs"], [("transcript", MT + "hash_hs.rs"), ("finished", MT + "tls12.rs ExpectFinished"), ("alignment", MT + "conn.rs check_aligned_handshake")],
     "verify data on the wire, acceptance of the server's", state="transcript hash", tech=TE, note="54 layouts of two flights with 21 endings.")

prop("E06", "Alerts, failure and closing are final and told exactly once",
     "A fatal alert or one of unknown level ends the connection with its description, warnings are passed over, close_notify ends the incoming stream without losing data before it, and renegotiation is declined with a warning. "
     "Once processing failed every later call reports the same error and does no work, at most one fatal alert is sent, and a backend that fails or is closed is reported as such.",
     ["histories", "fault_sequences"], "all alerts at all points, all failures, all later calls",
     "What a connection does after its end is untested; a truncated response must not look complete.",
     [MT + "conn.rs"], [("alerts", MT + "conn.rs process_alert"), ("errors", MT + "conn.rs process_new_packets"), ("closing", MT + "conn.rs send_close_notify, server_closed")],
     "result of every call, alerts written, end of stream", state="error, close_notify seen", tech=TE,
     note="1180 sequences and random ones. Exposed two defects fixed in /repo.")

prop("E07", "Application data passes through the client unchanged, in order and bounded",
     "Bytes read are exactly those the server sent after the handshake, bytes on the wire exactly those written, in order and once, in records of at most the configured fragment and never before the handshake is complete. "
     "A write takes what fits under 64 KiB of unsent data and says how much, and while decryption is suspended records are kept and later opened in order.",
     ["schedules", "histories"], "all interleavings of application, network and processing steps",
     "Buffering bugs depend on interleavings and sizes around limits.",
     [MT + "conn.rs", MT + "vecbuf.rs"], [("plaintext buffers", MT + "conn.rs write_plaintext, read_plaintext, flush_plaintext"), ("chunk buffer", MT + "vecbuf.rs")],
     "bytes and counts of every call, buffer flags", state="buffers", tech=TE,
     note="All pairs (thorough: fours) of 13 steps, 3 fragment sizes; sizes around the limit; random sequences of 14 steps.")

prop("E08", "The client authenticates itself only if asked and with a scheme both know",
     "A client with a key answers a certificate request with its chain and a signature, over exactly the handshake so far, by its preferred scheme among those requested; one without key or common scheme sends an empty certificate, and none sends a certificate unasked. "
     "Keys load exactly from the supported encodings and kinds, never sign with a scheme not offered, and their signatures verify.",
     ["inputs"], "all requests, keys, encodings and offers",
     "Scheme choice is a function of two lists; tests only load keys.",
     [MT + "sign.rs", MT + "hs.rs", MT + "tls12.rs", MT + "config.rs"], [("keys and schemes", MT + "sign.rs"), ("client certificate", MT + "hs.rs ClientAuthDetails, tls12.rs emit_certificate")],
     "certificate and verify messages, scheme, validity of the signature", tech=TE, note="504 handshakes, 1113 key operations, random ones.")

# ---- the two parties of MPC-TLS ----
MP = "crates/mpc-tls/src/"
RL = MP + "record_layer.rs"
TR = ("TLC enumerates operation sequences of a TLA+ model of the two parties; the real leader, follower and record layer run them over an ideal two-party "
      "functionality and TLC accepts the recorded trace of both parties or rejects it")
IDEAL = "The cryptographic two-party protocols (mpz, absent here) are replaced by their ideal functionality. "

prop("R01", "Records are sealed in order, each under the next sequence number",
     "Each record the parties send is the AES-GCM sealing, under the session's client write key, of its plaintext, type, version and length with the next sequence number, which is also its explicit nonce; the leader gets records back once each in the order pushed, application data only after traffic was started. "
     "No sequence number is used twice, whatever pushes are refused and however records are grouped into flushes.",
     ["inputs", "histories"], "all sequences of pushes, flushes, starts and takes",
     "Nonce reuse or reordering breaks TLS itself and shows only over sequences of operations; the repository's tests of this crate need dependencies not present and run a single session.",
     [RL, MP + "record_layer/encrypt.rs"], [("sequence numbers, nonces", RL + " next_write, push_encrypt"), ("sealing", MP + "record_layer/encrypt.rs")],
     "the records both parties get, opened with the session keys", state="record layer", tech=TR,
     note=IDEAL + "Every sequence of 4 of 8 operations, random runs of 14.")

prop("R02", "A session never carries more than it was configured for, and says so",
     "Sending more than the configured number of bytes, receiving more in total or decrypting more while online than configured, and buffering more records than the bound, is refused with an error by both parties, at the step that would exceed it, whatever lengths are claimed. "
     "What is within the limits is accepted.",
     ["inputs", "histories"], "all sequences of records around every limit",
     "Limits are sums over a history; overruns panic or desynchronise the parties.",
     [RL], [("limits", RL + " push_encrypt, push_decrypt, flush")],
     "answers of both parties to pushes and flushes", state="counters of the record layer", tech=TR,
     note=IDEAL + "26244 sequences at the limits, bulk pushes, lengths near 2^64.")

prop("R03", "Records received are delivered in order, once, and application data when due",
     "Records are decrypted with the server's write key and consecutive sequence numbers and delivered once each in the order received; while decryption is deferred the records before the first application record are still delivered, later ones are kept for when the connection closes, and application data is never delivered before traffic was started.",
     ["inputs", "histories"], "all sequences of pushes, flushes, starts and takes",
     "The split of a buffer into a decrypted prefix and a deferred rest depends on every order of record types and flushes.",
     [RL, MP + "record_layer/decrypt.rs"], [("receiving", RL + " push_decrypt, flush, next_decrypted")],
     "the plaintext records both parties get", state="record layer", tech=TR, note=IDEAL + "Every sequence of 4 of 8 operations, random runs.")

prop("R04", "The follower never sees application data, and neither party the other's secrets",
     "Whatever is sent and received, the follower learns neither the plaintext of application data nor what the one-time pads and shares protect: no secret is among the values revealed to it, while protocol records are public to both. "
     "A party that is told a plaintext of another length than claimed, or none for a public record, refuses it.",
     ["inputs", "histories"], "all pairs of what the parties are told, all sequences",
     "Confidentiality towards the notary is the point of MPC-TLS and is not observable in a functional test.",
     [RL, MP + "record_layer/encrypt.rs", MP + "record_layer/decrypt.rs"], [("visibility", MP + "record_layer/encrypt.rs EncryptOp::new, decrypt.rs")],
     "every value the ideal functionality reveals to a party, and the records it gets", state="what has been revealed", tech=TR,
     note=IDEAL + "3721 pairs of ways of telling the parties of a record, 10000 sequences.")

prop("R05", "No record that was altered is ever taken for authentic",
     "A received record whose ciphertext, tag, nonce, type, version or sequence number is not what the server sealed makes the step that opens it fail, whether it is opened at once, later, or when the connection is closed, and is in no transcript; one that was not altered is opened.",
     ["inputs", "histories"], "all deviations of a record at all positions of all sequences",
     "Authentication must hold on each of the paths a record can take; tests exercise honest servers only.",
     [MP + "record_layer/decrypt.rs", MP + "record_layer/aead.rs", MP + "record_layer/aes_gcm.rs", RL], [("tag checks", MP + "record_layer/decrypt.rs, aes_gcm.rs")],
     "answers to flushes and commits, records delivered", state="record layer", tech=TR,
     note=IDEAL + "Every sequence of 3 of 26 operations with 8 deviations, random runs.")

prop("R06", "The transcript is the records sent and received, all of them, in order",
     "Committing gives both parties every record sent and received, in order, with its type, sequence number, nonce, ciphertext and tag, with the plaintext of public records for both and of application data for the leader only; it is refused while records are unsent, and nothing can be added or opened after.",
     ["histories"], "all sequences of operations up to and including the commit",
     "What is attested is this transcript; a record lost, doubled or out of place on some path falsifies it.",
     [RL], [("commit", RL + " commit")], "the records both parties end with", state="record layer", tech=TR, note=IDEAL + "10000 sequences of 4 operations, random runs.")

prop("R07", "A connection closes only if it began with Finished and ended properly",
     "Both parties accept a connection when it is closed only if its first record each way is the Finished message of the verify data computed for the handshake and its last record each way is application data or a close_notify alert; in any other case both end with an error and neither has a transcript.",
     ["inputs", "histories"], "all combinations of handshake hashes, first and last records in either direction",
     "Truncation and a forged handshake are detected only here.",
     [MP + "utils.rs", MP + "leader.rs", MP + "follower.rs"], [("closing", MP + "utils.rs verify_transcript, check_close_notify")],
     "answers of close and finish, what the follower returns", state="session", tech=TR, note=IDEAL + "52488 combinations, random sessions.")

prop("R08", "The leader goes through its phases in order or not at all",
     "Each call of the leader succeeds exactly in the phases it belongs to (allocate, preprocess, prepare keys, active, closed), gives an error in any other and never panics, and once failed or misused a session yields no transcript; verify data and the parameters it answers are those of the session.",
     ["histories"], "all sequences of calls from each stage of a session",
     "The state machine has some twenty calls in six states; tests walk one path.",
     [MP + "leader.rs"], [("leader", MP + "leader.rs")], "answer of each call, the follower's state", state="session", tech=TR,
     note=IDEAL + "53240 sequences of 3 of 22 calls from 5 stages, random sessions.")

prop("R09", "Leader and follower end with the same transcript of the same connection",
     "If a session ends well, the transcripts of leader and follower agree with each other and with what was sent and received: the same records, time, version and certificate binding (client and server random, server key), and only the leader has the server's certificate chain and signature and the plaintexts.",
     ["histories"], "all sequences of record operations in a session, deferring decryption or not",
     "The notary signs what the follower has; the prover proves what the leader has.",
     [MP + "leader.rs", MP + "follower.rs", RL], [("transcripts", MP + "leader.rs finish, follower.rs run")],
     "both transcripts, field by field", state="session", tech=TR, note=IDEAL + "3456 (thorough 41472) sequences, random sessions.")

prop("R10", "The follower judges every message of the leader by itself",
     "Whatever messages a leader sends, in whatever order and with whatever contents, the follower never panics and ends with a transcript only if it was given one client random, one timely server hello with a P-256 key after it, both handshake hashes once each, and records that make a proper connection of them; anything else is an error.",
     ["inputs", "histories"], "all dialogues of messages with a leader that does not keep to the protocol",
     "The leader is the party the follower must not trust; tests run an honest one.",
     [MP + "follower.rs", MP + "msg.rs", RL], [("follower", MP + "follower.rs run")],
     "the follower's state after each message and its transcript", state="follower", tech=TR,
     note=IDEAL + "5324 dialogues of 3 messages from 4 stages, 780 orders of hellos, 48600 endings, 4096 of records, random dialogues.")

CO = "crates/components/"

prop("R11", "The PRF yields the TLS 1.2 secrets in whatever order its inputs arrive",
     "For any order in which pre-master secret, randoms, session hash and handshake hashes become known and any flushing in between, the two-party PRF's session keys and finished values are those of RFC 5246 (RFC 7627 with a session hash) for exactly these inputs, in both network modes. "
     "Flushing while it wants to be flushed computes all that can be, never anything from an input not given, and ends; calls out of phase or of another mode are errors.",
     ["schedules", "inputs"], "all orders of inputs, flushes and executions, all values",
     "A test gives the inputs in one order; in reduced mode the functions advance hash by hash between executions.",
     [CO + "hmac-sha256/src/prf.rs", CO + "hmac-sha256/src/prf/function.rs", CO + "hmac-sha256/src/prf/function/reduced.rs", CO + "hmac-sha256/src/prf/function/normal.rs"],
     [("PRF", CO + "hmac-sha256/src/prf.rs"), ("staged functions", CO + "hmac-sha256/src/prf/function/reduced.rs")],
     "each call's result, whether a flush is wanted, and all outputs, of both parties", state="phase, inputs given, stage of each function", tech=TR,
     note=IDEAL + "73920 orders with rounds between, 499680 sequences of calls (thorough), random orders and values.")

prop("R12", "Both parties' secret is the one the server derives from the client key",
     "The pre-master secret the parties compute in two-party computation is the ECDH secret of the server's key and the client key the leader hands out. "
     "Where a share conversion went wrong both parties find out before they finish, and no call out of phase, of the wrong role, or without the server's key succeeds or lets a later one succeed.",
     ["histories", "inputs"], "all sequences of calls of both parties, all keys, any conversion going wrong",
     "Random keys per run and failures at each call; a test runs the calls in the one right order.",
     [CO + "key-exchange/src/exchange.rs", CO + "key-exchange/src/point_addition.rs", CO + "key-exchange/src/circuit.rs"],
     [("exchange", CO + "key-exchange/src/exchange.rs"), ("addition of points", CO + "key-exchange/src/point_addition.rs")],
     "each call's result, the secret in the functionality compared with the server's", state="phase of each party, server keys, what was assigned", tech=TR,
     note=IDEAL + "7981 exchanges with 2 calls put in anywhere and each conversion bent, thorough 3 calls; random exchanges.")

prop("R13", "Every block of keystream is AES of its own counter block and used once",
     "Whatever is allocated, split off and applied, each block a keystream yields is the AES-128 encryption, under the key and IV set when it was allocated, of the nonce and counter assigned to it, no block is in two streams, and data is combined with keystream of exactly its length. "
     "Too little keystream, data of another length, and a key or IV not set are errors that change nothing.",
     ["programs"], "all programs over a cipher and its streams",
     "Reuse or misalignment of keystream shows only in particular sequences of splitting and assigning.",
     [CO + "cipher/src/lib.rs", CO + "cipher/src/aes/mod.rs"], [("keystreams", CO + "cipher/src/lib.rs"), ("AES", CO + "cipher/src/aes/mod.rs")],
     "each call's result and the value of every output", state="key, IV, blocks with their nonces and counters, streams", tech=TR,
     note=IDEAL + "20725 programs of 4 operations (thorough: 5), random ones of 14.")

prop("R14", "MPC-TLS is configured to afford what was asked for and the protocol's own data",
     "A configuration affords the application data asked for each way and the protocol's own messages on top, by default in records enough to carry it, decrypts after the session and derives keys wholly in MPC unless told otherwise. "
     "Options take effect whatever the order they are given in; a missing limit, or more to be received online than at all, is refused.",
     ["configurations"], "all configurations",
     "Budgets that fall short only show in sessions that reach them.",
     [MP + "config.rs"], [("configuration", MP + "config.rs build")],
     "the configuration built or the refusal", state="(stateless)", tech=TR,
     note="55296 configurations and random ones with sizes up to 2^30.")

TN = "crates/tlsn/src/"

prop("P01", "The verifier accepts only what is true of the connection",
     "A verifier accepts a proof only if every disclosed byte and every committed hash or encoding is that of the authenticated plaintext of the connection at the positions claimed, whatever the prover sends in its messages or proves. "
     "A transcript that is missing, superfluous, of another length or with other positions than requested, or a commitment beyond the transcript is refused with an error, and neither party ever panics.",
     ["inputs"], "all transcripts, all disclosures and commitments, all falsifications of any of them",
     "Soundness is a statement about provers that lie; functional tests run honest ones.",
     [TN + "transcript_internal/auth.rs", TN + "verifier/verify.rs", TN + "verifier.rs"],
     [("authentication of plaintext", TN + "transcript_internal/auth.rs"), ("checks of the request", TN + "verifier/verify.rs")],
     "what the verifier answers and puts out", state="connection, rounds proven", tech=TR,
     note=IDEAL + "624 falsifications of bytes, 576 of shapes, random proofs half of them lying.")

prop("P02", "A proof discloses exactly what was asked, nothing more",
     "The transcript and the commitments both parties have after a proof are exactly those requested: the authenticated positions are the disclosed ones with the true bytes there and nothing elsewhere, each commitment is for its direction, positions and algorithm, and equal on both sides. "
     "Apart from what is disclosed, commitment hashes and public records, no plaintext, and no key unless a whole direction is disclosed, is decoded to the verifier.",
     ["inputs", "histories"], "all splits of the data into records, all disclosed and committed positions, all sequences of proofs",
     "Positions interact with record, block and transcript edges; a slip discloses or loses bytes only at some of them.",
     [TN + "transcript_internal/auth.rs", TN + "map.rs", TN + "prover/prove.rs", TN + "verifier/verify.rs"],
     [("reference map and decoding", TN + "map.rs, " + TN + "transcript_internal/auth.rs")],
     "outputs of prove and verify, every value decoded to the verifier", state="rounds proven", tech=TR,
     note=IDEAL + "8706 (quick: every 9th) combinations of splits, disclosures and commitments, 302 pairs of rounds, random ones.")

prop("P03", "A server name counts only with a valid chain and a signed key exchange",
     "A verifier reports a server name only if the prover gave a certificate chain which is valid for that name at the connection's time under the verifier's roots, and a signature by its key of this connection's key exchange parameters. "
     "Anything else that is given or asked is refused, and no name is reported which was not asked for.",
     ["inputs"], "all presentations of identities, all times, keys and roots",
     "Each condition must bite alone: a proof with one wrong part and all others right.",
     [TN + "verifier/verify.rs", TN + "prover/prove.rs"],
     [("identity", TN + "verifier/verify.rs")], "the name the verifier puts out, its answer", tech=TR,
     note=IDEAL + "576 combinations of identity, time, key and roots, random ones.")

prop("P04", "Received records count only with the tags the server made",
     "The proof of the records' authentication tags succeeds exactly if each record's tag is the one the server's write key gives for its sequence number, type, version, explicit nonce and ciphertext, whatever is altered, swapped or repeated; it never panics.",
     ["inputs"], "all sets of records, all alterations of any part of one or several",
     "Records are opened before this check, so all that is attested rests on it; honest servers never fail it.",
     [TN + "tag.rs", TN + "ghash.rs"], [("tags", TN + "tag.rs verify_tags")], "the verifier's answer", tech=TR,
     note=IDEAL + "Every deviation in one part at every type and edge length; pairs and triples trading parts.")

DE = "crates/components/deap/src/"

prop("P05", "The follower accepts only outputs that were proven, and reveals its inputs last",
     "In dual execution the follower finalizes without error only if every value decoded to it during the session is the one the program gives for the inputs committed in the proof, so a leader falsifying a computation or an input is found out. "
     "An honest leader always passes, calls and inputs being assigned to the same values on both machines, and the follower's private inputs reach the leader only on finalization.",
     ["inputs", "histories"], "all programs, all falsified computations and inputs",
     "The check covers what the semi-honest protocol decoded; a value left out of it goes unnoticed unless falsified.",
     [DE + "lib.rs", DE + "map.rs"], [("dual execution", DE + "lib.rs Deap"), ("memory map", DE + "map.rs")],
     "values decoded, answers of finalize, messages before and after", state="machine memories", tech=TR,
     note=IDEAL + "26500 programs of 3 operations (quick: every 3rd), random ones of up to 14.")

prop("P06", "A session ends with both parties holding the server's connection, or an error",
     "A session between an honest prover, verifier and server ends either with both parties holding the same records of the connection the application and the server had, or with an error at whoever is still there: when the verifier refuses, versions differ, the certificate, suite or a record is wrong, a limit is exceeded, or the server, network or a party goes away. "
     "Whatever order the application writes, closes or drops the connection in, and the server sends, says goodbye or leaves, bytes arrive in order and unaltered, close_notify goes out, and nobody panics, spins or waits for what cannot come. "
     "A session that is done can be proven: the verifier sees the server's name and all bytes.",
     ["histories", "schedules", "fault_sequences"], "all orders of application, server and party events, all polling orders",
     "Whole sessions run only in ignored integration tests, with one well-behaved server.",
     [TN + "prover.rs", TN + "prover/client/mpc.rs", TN + "prover/client/proxy/mod.rs", TN + "prover/conn.rs", TN + "verifier.rs", TN + "session.rs"],
     [("prover", TN + "prover.rs Prover::poll"), ("MPC client", TN + "prover/client/mpc.rs"), ("proxy client", TN + "prover/client/proxy/mod.rs"), ("session", TN + "session.rs")],
     "state of each party after each event, bytes at each end, records held, close_notify, polls", state="session", tech=TR,
     note=IDEAL + "The certificate chain and server are real (rustls). 4000 enumerated sequences, thorough 16000; seeded random sessions.")

prop("P07", "A proxying verifier accepts only a connection the server's handshake confirms",
     "A verifier that proxies the connection ends without error only if what passed is a full TLS 1.2 handshake of the supported kind, whose Finished messages both sides confirm under the master secret the prover proves with, followed by records which the server sealed; it then holds exactly the records that passed. "
     "A prover which uses another secret, suite, version, group or a resumed session, sends anything else, or whose server leaves early or is tampered with, makes it end with an error: it never panics, and never waits once the connection and session are over. "
     "Whatever the prover shows of such a connection is accepted only if it is what the records carried and the certificate is good for the name.",
     ["inputs", "fault_sequences"], "all deviations of a prover, server or network from the protocol",
     "Proxy mode has no test with a prover that deviates.",
     [TN + "verifier.rs", TN + "proxy.rs", TN + "proxy/verifier.rs", "crates/core/src/transcript/tls/builder.rs", TN + "tag.rs"],
     [("proxy", TN + "verifier.rs Verifier<CommitAccepted<Proxy>>::run"), ("finalization", TN + "proxy/verifier.rs ProxyVerifier::finalize"), ("verify data", TN + "proxy.rs VerifyDataCheck")],
     "outcome of each party, records held against the wire, outcome of a proof", state="proxied connection", tech=TR,
     note=IDEAL + "The prover's TLS client is rustls with the deviations added. Records sent are not authenticated by their tags, see DESIGN section 6.")
