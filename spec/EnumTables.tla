----------------------------- MODULE EnumTables -----------------------------
(* Code points of the TLS registries as tls-core names them.                   *)
EXTENDS Integers, Sequences
T_ProtocolVersion == <<
  <<512, "SSLv2">>,
  <<768, "SSLv3">>,
  <<769, "TLSv1_0">>,
  <<770, "TLSv1_1">>,
  <<771, "TLSv1_2">>,
  <<772, "TLSv1_3">>,
  <<65277, "DTLSv1_2">>,
  <<65279, "DTLSv1_0">>>>
T_HashAlgorithm == <<
  <<0, "NONE">>,
  <<1, "MD5">>,
  <<2, "SHA1">>,
  <<3, "SHA224">>,
  <<4, "SHA256">>,
  <<5, "SHA384">>,
  <<6, "SHA512">>>>
T_SignatureAlgorithm == <<
  <<0, "Anonymous">>,
  <<1, "RSA">>,
  <<2, "DSA">>,
  <<3, "ECDSA">>,
  <<7, "ED25519">>,
  <<8, "ED448">>>>
T_ClientCertificateType == <<
  <<1, "RSASign">>,
  <<2, "DSSSign">>,
  <<3, "RSAFixedDH">>,
  <<4, "DSSFixedDH">>,
  <<5, "RSAEphemeralDH">>,
  <<6, "DSSEphemeralDH">>,
  <<20, "FortezzaDMS">>,
  <<64, "ECDSASign">>,
  <<65, "RSAFixedECDH">>,
  <<66, "ECDSAFixedECDH">>>>
T_Compression == <<
  <<0, "Null">>,
  <<1, "Deflate">>,
  <<64, "LSZ">>>>
T_ContentType == <<
  <<20, "ChangeCipherSpec">>,
  <<21, "Alert">>,
  <<22, "Handshake">>,
  <<23, "ApplicationData">>,
  <<24, "Heartbeat">>>>
T_HandshakeType == <<
  <<0, "HelloRequest">>,
  <<1, "ClientHello">>,
  <<2, "ServerHello">>,
  <<3, "HelloVerifyRequest">>,
  <<4, "NewSessionTicket">>,
  <<5, "EndOfEarlyData">>,
  <<6, "HelloRetryRequest">>,
  <<8, "EncryptedExtensions">>,
  <<11, "Certificate">>,
  <<12, "ServerKeyExchange">>,
  <<13, "CertificateRequest">>,
  <<14, "ServerHelloDone">>,
  <<15, "CertificateVerify">>,
  <<16, "ClientKeyExchange">>,
  <<20, "Finished">>,
  <<21, "CertificateURL">>,
  <<22, "CertificateStatus">>,
  <<24, "KeyUpdate">>,
  <<254, "MessageHash">>>>
T_AlertLevel == <<
  <<1, "Warning">>,
  <<2, "Fatal">>>>
T_AlertDescription == <<
  <<0, "CloseNotify">>,
  <<10, "UnexpectedMessage">>,
  <<20, "BadRecordMac">>,
  <<21, "DecryptionFailed">>,
  <<22, "RecordOverflow">>,
  <<30, "DecompressionFailure">>,
  <<40, "HandshakeFailure">>,
  <<41, "NoCertificate">>,
  <<42, "BadCertificate">>,
  <<43, "UnsupportedCertificate">>,
  <<44, "CertificateRevoked">>,
  <<45, "CertificateExpired">>,
  <<46, "CertificateUnknown">>,
  <<47, "IllegalParameter">>,
  <<48, "UnknownCA">>,
  <<49, "AccessDenied">>,
  <<50, "DecodeError">>,
  <<51, "DecryptError">>,
  <<60, "ExportRestriction">>,
  <<70, "ProtocolVersion">>,
  <<71, "InsufficientSecurity">>,
  <<80, "InternalError">>,
  <<86, "InappropriateFallback">>,
  <<90, "UserCanceled">>,
  <<100, "NoRenegotiation">>,
  <<109, "MissingExtension">>,
  <<110, "UnsupportedExtension">>,
  <<111, "CertificateUnobtainable">>,
  <<112, "UnrecognisedName">>,
  <<113, "BadCertificateStatusResponse">>,
  <<114, "BadCertificateHashValue">>,
  <<115, "UnknownPSKIdentity">>,
  <<116, "CertificateRequired">>,
  <<120, "NoApplicationProtocol">>>>
T_HeartbeatMessageType == <<
  <<1, "Request">>,
  <<2, "Response">>>>
T_ExtensionType == <<
  <<0, "ServerName">>,
  <<1, "MaxFragmentLength">>,
  <<2, "ClientCertificateUrl">>,
  <<3, "TrustedCAKeys">>,
  <<4, "TruncatedHMAC">>,
  <<5, "StatusRequest">>,
  <<6, "UserMapping">>,
  <<7, "ClientAuthz">>,
  <<8, "ServerAuthz">>,
  <<9, "CertificateType">>,
  <<10, "EllipticCurves">>,
  <<11, "ECPointFormats">>,
  <<12, "SRP">>,
  <<13, "SignatureAlgorithms">>,
  <<14, "UseSRTP">>,
  <<15, "Heartbeat">>,
  <<16, "ALProtocolNegotiation">>,
  <<18, "SCT">>,
  <<21, "Padding">>,
  <<23, "ExtendedMasterSecret">>,
  <<35, "SessionTicket">>,
  <<41, "PreSharedKey">>,
  <<42, "EarlyData">>,
  <<43, "SupportedVersions">>,
  <<44, "Cookie">>,
  <<45, "PSKKeyExchangeModes">>,
  <<46, "TicketEarlyDataInfo">>,
  <<47, "CertificateAuthorities">>,
  <<48, "OIDFilters">>,
  <<49, "PostHandshakeAuth">>,
  <<50, "SignatureAlgorithmsCert">>,
  <<51, "KeyShare">>,
  <<57, "TransportParameters">>,
  <<13172, "NextProtocolNegotiation">>,
  <<30031, "ChannelId">>,
  <<65281, "RenegotiationInfo">>,
  <<65445, "TransportParametersDraft">>>>
T_ServerNameType == <<
  <<0, "HostName">>>>
T_NamedCurve == <<
  <<1, "sect163k1">>,
  <<2, "sect163r1">>,
  <<3, "sect163r2">>,
  <<4, "sect193r1">>,
  <<5, "sect193r2">>,
  <<6, "sect233k1">>,
  <<7, "sect233r1">>,
  <<8, "sect239k1">>,
  <<9, "sect283k1">>,
  <<10, "sect283r1">>,
  <<11, "sect409k1">>,
  <<12, "sect409r1">>,
  <<13, "sect571k1">>,
  <<14, "sect571r1">>,
  <<15, "secp160k1">>,
  <<16, "secp160r1">>,
  <<17, "secp160r2">>,
  <<18, "secp192k1">>,
  <<19, "secp192r1">>,
  <<20, "secp224k1">>,
  <<21, "secp224r1">>,
  <<22, "secp256k1">>,
  <<23, "secp256r1">>,
  <<24, "secp384r1">>,
  <<25, "secp521r1">>,
  <<26, "brainpoolp256r1">>,
  <<27, "brainpoolp384r1">>,
  <<28, "brainpoolp512r1">>,
  <<29, "X25519">>,
  <<30, "X448">>,
  <<65281, "arbitrary_explicit_prime_curves">>,
  <<65282, "arbitrary_explicit_char2_curves">>>>
T_NamedGroup == <<
  <<23, "secp256r1">>,
  <<24, "secp384r1">>,
  <<25, "secp521r1">>,
  <<29, "X25519">>,
  <<30, "X448">>,
  <<256, "FFDHE2048">>,
  <<257, "FFDHE3072">>,
  <<258, "FFDHE4096">>,
  <<259, "FFDHE6144">>,
  <<260, "FFDHE8192">>>>
T_CipherSuite == <<
  <<0, "TLS_NULL_WITH_NULL_NULL">>,
  <<1, "TLS_RSA_WITH_NULL_MD5">>,
  <<2, "TLS_RSA_WITH_NULL_SHA">>,
  <<3, "TLS_RSA_EXPORT_WITH_RC4_40_MD5">>,
  <<4, "TLS_RSA_WITH_RC4_128_MD5">>,
  <<5, "TLS_RSA_WITH_RC4_128_SHA">>,
  <<6, "TLS_RSA_EXPORT_WITH_RC2_CBC_40_MD5">>,
  <<7, "TLS_RSA_WITH_IDEA_CBC_SHA">>,
  <<8, "TLS_RSA_EXPORT_WITH_DES40_CBC_SHA">>,
  <<9, "TLS_RSA_WITH_DES_CBC_SHA">>,
  <<10, "TLS_RSA_WITH_3DES_EDE_CBC_SHA">>,
  <<11, "TLS_DH_DSS_EXPORT_WITH_DES40_CBC_SHA">>,
  <<12, "TLS_DH_DSS_WITH_DES_CBC_SHA">>,
  <<13, "TLS_DH_DSS_WITH_3DES_EDE_CBC_SHA">>,
  <<14, "TLS_DH_RSA_EXPORT_WITH_DES40_CBC_SHA">>,
  <<15, "TLS_DH_RSA_WITH_DES_CBC_SHA">>,
  <<16, "TLS_DH_RSA_WITH_3DES_EDE_CBC_SHA">>,
  <<17, "TLS_DHE_DSS_EXPORT_WITH_DES40_CBC_SHA">>,
  <<18, "TLS_DHE_DSS_WITH_DES_CBC_SHA">>,
  <<19, "TLS_DHE_DSS_WITH_3DES_EDE_CBC_SHA">>,
  <<20, "TLS_DHE_RSA_EXPORT_WITH_DES40_CBC_SHA">>,
  <<21, "TLS_DHE_RSA_WITH_DES_CBC_SHA">>,
  <<22, "TLS_DHE_RSA_WITH_3DES_EDE_CBC_SHA">>,
  <<23, "TLS_DH_anon_EXPORT_WITH_RC4_40_MD5">>,
  <<24, "TLS_DH_anon_WITH_RC4_128_MD5">>,
  <<25, "TLS_DH_anon_EXPORT_WITH_DES40_CBC_SHA">>,
  <<26, "TLS_DH_anon_WITH_DES_CBC_SHA">>,
  <<27, "TLS_DH_anon_WITH_3DES_EDE_CBC_SHA">>,
  <<28, "SSL_FORTEZZA_KEA_WITH_NULL_SHA">>,
  <<29, "SSL_FORTEZZA_KEA_WITH_FORTEZZA_CBC_SHA">>,
  <<30, "TLS_KRB5_WITH_DES_CBC_SHA_or_SSL_FORTEZZA_KEA_WITH_RC4_128_SHA">>,
  <<31, "TLS_KRB5_WITH_3DES_EDE_CBC_SHA">>,
  <<32, "TLS_KRB5_WITH_RC4_128_SHA">>,
  <<33, "TLS_KRB5_WITH_IDEA_CBC_SHA">>,
  <<34, "TLS_KRB5_WITH_DES_CBC_MD5">>,
  <<35, "TLS_KRB5_WITH_3DES_EDE_CBC_MD5">>,
  <<36, "TLS_KRB5_WITH_RC4_128_MD5">>,
  <<37, "TLS_KRB5_WITH_IDEA_CBC_MD5">>,
  <<38, "TLS_KRB5_EXPORT_WITH_DES_CBC_40_SHA">>,
  <<39, "TLS_KRB5_EXPORT_WITH_RC2_CBC_40_SHA">>,
  <<40, "TLS_KRB5_EXPORT_WITH_RC4_40_SHA">>,
  <<41, "TLS_KRB5_EXPORT_WITH_DES_CBC_40_MD5">>,
  <<42, "TLS_KRB5_EXPORT_WITH_RC2_CBC_40_MD5">>,
  <<43, "TLS_KRB5_EXPORT_WITH_RC4_40_MD5">>,
  <<44, "TLS_PSK_WITH_NULL_SHA">>,
  <<45, "TLS_DHE_PSK_WITH_NULL_SHA">>,
  <<46, "TLS_RSA_PSK_WITH_NULL_SHA">>,
  <<47, "TLS_RSA_WITH_AES_128_CBC_SHA">>,
  <<48, "TLS_DH_DSS_WITH_AES_128_CBC_SHA">>,
  <<49, "TLS_DH_RSA_WITH_AES_128_CBC_SHA">>,
  <<50, "TLS_DHE_DSS_WITH_AES_128_CBC_SHA">>,
  <<51, "TLS_DHE_RSA_WITH_AES_128_CBC_SHA">>,
  <<52, "TLS_DH_anon_WITH_AES_128_CBC_SHA">>,
  <<53, "TLS_RSA_WITH_AES_256_CBC_SHA">>,
  <<54, "TLS_DH_DSS_WITH_AES_256_CBC_SHA">>,
  <<55, "TLS_DH_RSA_WITH_AES_256_CBC_SHA">>,
  <<56, "TLS_DHE_DSS_WITH_AES_256_CBC_SHA">>,
  <<57, "TLS_DHE_RSA_WITH_AES_256_CBC_SHA">>,
  <<58, "TLS_DH_anon_WITH_AES_256_CBC_SHA">>,
  <<59, "TLS_RSA_WITH_NULL_SHA256">>,
  <<60, "TLS_RSA_WITH_AES_128_CBC_SHA256">>,
  <<61, "TLS_RSA_WITH_AES_256_CBC_SHA256">>,
  <<62, "TLS_DH_DSS_WITH_AES_128_CBC_SHA256">>,
  <<63, "TLS_DH_RSA_WITH_AES_128_CBC_SHA256">>,
  <<64, "TLS_DHE_DSS_WITH_AES_128_CBC_SHA256">>,
  <<65, "TLS_RSA_WITH_CAMELLIA_128_CBC_SHA">>,
  <<66, "TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA">>,
  <<67, "TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA">>,
  <<68, "TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA">>,
  <<69, "TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA">>,
  <<70, "TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA">>,
  <<71, "TLS_ECDH_ECDSA_WITH_NULL_SHA_draft">>,
  <<72, "TLS_ECDH_ECDSA_WITH_RC4_128_SHA_draft">>,
  <<73, "TLS_ECDH_ECDSA_WITH_DES_CBC_SHA_draft">>,
  <<74, "TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA_draft">>,
  <<75, "TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA_draft">>,
  <<76, "TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA_draft">>,
  <<77, "TLS_ECDH_ECNRA_WITH_DES_CBC_SHA_draft">>,
  <<78, "TLS_ECDH_ECNRA_WITH_3DES_EDE_CBC_SHA_draft">>,
  <<79, "TLS_ECMQV_ECDSA_NULL_SHA_draft">>,
  <<80, "TLS_ECMQV_ECDSA_WITH_RC4_128_SHA_draft">>,
  <<81, "TLS_ECMQV_ECDSA_WITH_DES_CBC_SHA_draft">>,
  <<82, "TLS_ECMQV_ECDSA_WITH_3DES_EDE_CBC_SHA_draft">>,
  <<83, "TLS_ECMQV_ECNRA_NULL_SHA_draft">>,
  <<84, "TLS_ECMQV_ECNRA_WITH_RC4_128_SHA_draft">>,
  <<85, "TLS_ECMQV_ECNRA_WITH_DES_CBC_SHA_draft">>,
  <<86, "TLS_ECMQV_ECNRA_WITH_3DES_EDE_CBC_SHA_draft">>,
  <<87, "TLS_ECDH_anon_NULL_WITH_SHA_draft">>,
  <<88, "TLS_ECDH_anon_WITH_RC4_128_SHA_draft">>,
  <<89, "TLS_ECDH_anon_WITH_DES_CBC_SHA_draft">>,
  <<90, "TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA_draft">>,
  <<91, "TLS_ECDH_anon_EXPORT_WITH_DES40_CBC_SHA_draft">>,
  <<92, "TLS_ECDH_anon_EXPORT_WITH_RC4_40_SHA_draft">>,
  <<96, "TLS_RSA_EXPORT1024_WITH_RC4_56_MD5">>,
  <<97, "TLS_RSA_EXPORT1024_WITH_RC2_CBC_56_MD5">>,
  <<98, "TLS_RSA_EXPORT1024_WITH_DES_CBC_SHA">>,
  <<99, "TLS_DHE_DSS_EXPORT1024_WITH_DES_CBC_SHA">>,
  <<100, "TLS_RSA_EXPORT1024_WITH_RC4_56_SHA">>,
  <<101, "TLS_DHE_DSS_EXPORT1024_WITH_RC4_56_SHA">>,
  <<102, "TLS_DHE_DSS_WITH_RC4_128_SHA">>,
  <<103, "TLS_DHE_RSA_WITH_AES_128_CBC_SHA256">>,
  <<104, "TLS_DH_DSS_WITH_AES_256_CBC_SHA256">>,
  <<105, "TLS_DH_RSA_WITH_AES_256_CBC_SHA256">>,
  <<106, "TLS_DHE_DSS_WITH_AES_256_CBC_SHA256">>,
  <<107, "TLS_DHE_RSA_WITH_AES_256_CBC_SHA256">>,
  <<108, "TLS_DH_anon_WITH_AES_128_CBC_SHA256">>,
  <<109, "TLS_DH_anon_WITH_AES_256_CBC_SHA256">>,
  <<114, "TLS_DHE_DSS_WITH_3DES_EDE_CBC_RMD">>,
  <<115, "TLS_DHE_DSS_WITH_AES_128_CBC_RMD">>,
  <<116, "TLS_DHE_DSS_WITH_AES_256_CBC_RMD">>,
  <<119, "TLS_DHE_RSA_WITH_3DES_EDE_CBC_RMD">>,
  <<120, "TLS_DHE_RSA_WITH_AES_128_CBC_RMD">>,
  <<121, "TLS_DHE_RSA_WITH_AES_256_CBC_RMD">>,
  <<124, "TLS_RSA_WITH_3DES_EDE_CBC_RMD">>,
  <<125, "TLS_RSA_WITH_AES_128_CBC_RMD">>,
  <<126, "TLS_RSA_WITH_AES_256_CBC_RMD">>,
  <<128, "TLS_GOSTR341094_WITH_28147_CNT_IMIT">>,
  <<129, "TLS_GOSTR341001_WITH_28147_CNT_IMIT">>,
  <<130, "TLS_GOSTR341094_WITH_NULL_GOSTR3411">>,
  <<131, "TLS_GOSTR341001_WITH_NULL_GOSTR3411">>,
  <<132, "TLS_RSA_WITH_CAMELLIA_256_CBC_SHA">>,
  <<133, "TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA">>,
  <<134, "TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA">>,
  <<135, "TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA">>,
  <<136, "TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA">>,
  <<137, "TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA">>,
  <<138, "TLS_PSK_WITH_RC4_128_SHA">>,
  <<139, "TLS_PSK_WITH_3DES_EDE_CBC_SHA">>,
  <<140, "TLS_PSK_WITH_AES_128_CBC_SHA">>,
  <<141, "TLS_PSK_WITH_AES_256_CBC_SHA">>,
  <<142, "TLS_DHE_PSK_WITH_RC4_128_SHA">>,
  <<143, "TLS_DHE_PSK_WITH_3DES_EDE_CBC_SHA">>,
  <<144, "TLS_DHE_PSK_WITH_AES_128_CBC_SHA">>,
  <<145, "TLS_DHE_PSK_WITH_AES_256_CBC_SHA">>,
  <<146, "TLS_RSA_PSK_WITH_RC4_128_SHA">>,
  <<147, "TLS_RSA_PSK_WITH_3DES_EDE_CBC_SHA">>,
  <<148, "TLS_RSA_PSK_WITH_AES_128_CBC_SHA">>,
  <<149, "TLS_RSA_PSK_WITH_AES_256_CBC_SHA">>,
  <<150, "TLS_RSA_WITH_SEED_CBC_SHA">>,
  <<151, "TLS_DH_DSS_WITH_SEED_CBC_SHA">>,
  <<152, "TLS_DH_RSA_WITH_SEED_CBC_SHA">>,
  <<153, "TLS_DHE_DSS_WITH_SEED_CBC_SHA">>,
  <<154, "TLS_DHE_RSA_WITH_SEED_CBC_SHA">>,
  <<155, "TLS_DH_anon_WITH_SEED_CBC_SHA">>,
  <<156, "TLS_RSA_WITH_AES_128_GCM_SHA256">>,
  <<157, "TLS_RSA_WITH_AES_256_GCM_SHA384">>,
  <<158, "TLS_DHE_RSA_WITH_AES_128_GCM_SHA256">>,
  <<159, "TLS_DHE_RSA_WITH_AES_256_GCM_SHA384">>,
  <<160, "TLS_DH_RSA_WITH_AES_128_GCM_SHA256">>,
  <<161, "TLS_DH_RSA_WITH_AES_256_GCM_SHA384">>,
  <<162, "TLS_DHE_DSS_WITH_AES_128_GCM_SHA256">>,
  <<163, "TLS_DHE_DSS_WITH_AES_256_GCM_SHA384">>,
  <<164, "TLS_DH_DSS_WITH_AES_128_GCM_SHA256">>,
  <<165, "TLS_DH_DSS_WITH_AES_256_GCM_SHA384">>,
  <<166, "TLS_DH_anon_WITH_AES_128_GCM_SHA256">>,
  <<167, "TLS_DH_anon_WITH_AES_256_GCM_SHA384">>,
  <<168, "TLS_PSK_WITH_AES_128_GCM_SHA256">>,
  <<169, "TLS_PSK_WITH_AES_256_GCM_SHA384">>,
  <<170, "TLS_DHE_PSK_WITH_AES_128_GCM_SHA256">>,
  <<171, "TLS_DHE_PSK_WITH_AES_256_GCM_SHA384">>,
  <<172, "TLS_RSA_PSK_WITH_AES_128_GCM_SHA256">>,
  <<173, "TLS_RSA_PSK_WITH_AES_256_GCM_SHA384">>,
  <<174, "TLS_PSK_WITH_AES_128_CBC_SHA256">>,
  <<175, "TLS_PSK_WITH_AES_256_CBC_SHA384">>,
  <<176, "TLS_PSK_WITH_NULL_SHA256">>,
  <<177, "TLS_PSK_WITH_NULL_SHA384">>,
  <<178, "TLS_DHE_PSK_WITH_AES_128_CBC_SHA256">>,
  <<179, "TLS_DHE_PSK_WITH_AES_256_CBC_SHA384">>,
  <<180, "TLS_DHE_PSK_WITH_NULL_SHA256">>,
  <<181, "TLS_DHE_PSK_WITH_NULL_SHA384">>,
  <<182, "TLS_RSA_PSK_WITH_AES_128_CBC_SHA256">>,
  <<183, "TLS_RSA_PSK_WITH_AES_256_CBC_SHA384">>,
  <<184, "TLS_RSA_PSK_WITH_NULL_SHA256">>,
  <<185, "TLS_RSA_PSK_WITH_NULL_SHA384">>,
  <<186, "TLS_RSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<187, "TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<188, "TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<189, "TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<190, "TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<191, "TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<192, "TLS_RSA_WITH_CAMELLIA_256_CBC_SHA256">>,
  <<193, "TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA256">>,
  <<194, "TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA256">>,
  <<195, "TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA256">>,
  <<196, "TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA256">>,
  <<197, "TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA256">>,
  <<255, "TLS_EMPTY_RENEGOTIATION_INFO_SCSV">>,
  <<4865, "TLS13_AES_128_GCM_SHA256">>,
  <<4866, "TLS13_AES_256_GCM_SHA384">>,
  <<4867, "TLS13_CHACHA20_POLY1305_SHA256">>,
  <<4868, "TLS13_AES_128_CCM_SHA256">>,
  <<4869, "TLS13_AES_128_CCM_8_SHA256">>,
  <<49153, "TLS_ECDH_ECDSA_WITH_NULL_SHA">>,
  <<49154, "TLS_ECDH_ECDSA_WITH_RC4_128_SHA">>,
  <<49155, "TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA">>,
  <<49156, "TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA">>,
  <<49157, "TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA">>,
  <<49158, "TLS_ECDHE_ECDSA_WITH_NULL_SHA">>,
  <<49159, "TLS_ECDHE_ECDSA_WITH_RC4_128_SHA">>,
  <<49160, "TLS_ECDHE_ECDSA_WITH_3DES_EDE_CBC_SHA">>,
  <<49161, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA">>,
  <<49162, "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA">>,
  <<49163, "TLS_ECDH_RSA_WITH_NULL_SHA">>,
  <<49164, "TLS_ECDH_RSA_WITH_RC4_128_SHA">>,
  <<49165, "TLS_ECDH_RSA_WITH_3DES_EDE_CBC_SHA">>,
  <<49166, "TLS_ECDH_RSA_WITH_AES_128_CBC_SHA">>,
  <<49167, "TLS_ECDH_RSA_WITH_AES_256_CBC_SHA">>,
  <<49168, "TLS_ECDHE_RSA_WITH_NULL_SHA">>,
  <<49169, "TLS_ECDHE_RSA_WITH_RC4_128_SHA">>,
  <<49170, "TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA">>,
  <<49171, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA">>,
  <<49172, "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA">>,
  <<49173, "TLS_ECDH_anon_WITH_NULL_SHA">>,
  <<49174, "TLS_ECDH_anon_WITH_RC4_128_SHA">>,
  <<49175, "TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA">>,
  <<49176, "TLS_ECDH_anon_WITH_AES_128_CBC_SHA">>,
  <<49177, "TLS_ECDH_anon_WITH_AES_256_CBC_SHA">>,
  <<49178, "TLS_SRP_SHA_WITH_3DES_EDE_CBC_SHA">>,
  <<49179, "TLS_SRP_SHA_RSA_WITH_3DES_EDE_CBC_SHA">>,
  <<49180, "TLS_SRP_SHA_DSS_WITH_3DES_EDE_CBC_SHA">>,
  <<49181, "TLS_SRP_SHA_WITH_AES_128_CBC_SHA">>,
  <<49182, "TLS_SRP_SHA_RSA_WITH_AES_128_CBC_SHA">>,
  <<49183, "TLS_SRP_SHA_DSS_WITH_AES_128_CBC_SHA">>,
  <<49184, "TLS_SRP_SHA_WITH_AES_256_CBC_SHA">>,
  <<49185, "TLS_SRP_SHA_RSA_WITH_AES_256_CBC_SHA">>,
  <<49186, "TLS_SRP_SHA_DSS_WITH_AES_256_CBC_SHA">>,
  <<49187, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256">>,
  <<49188, "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384">>,
  <<49189, "TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA256">>,
  <<49190, "TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA384">>,
  <<49191, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256">>,
  <<49192, "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA384">>,
  <<49193, "TLS_ECDH_RSA_WITH_AES_128_CBC_SHA256">>,
  <<49194, "TLS_ECDH_RSA_WITH_AES_256_CBC_SHA384">>,
  <<49195, "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256">>,
  <<49196, "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384">>,
  <<49197, "TLS_ECDH_ECDSA_WITH_AES_128_GCM_SHA256">>,
  <<49198, "TLS_ECDH_ECDSA_WITH_AES_256_GCM_SHA384">>,
  <<49199, "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256">>,
  <<49200, "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384">>,
  <<49201, "TLS_ECDH_RSA_WITH_AES_128_GCM_SHA256">>,
  <<49202, "TLS_ECDH_RSA_WITH_AES_256_GCM_SHA384">>,
  <<49203, "TLS_ECDHE_PSK_WITH_RC4_128_SHA">>,
  <<49204, "TLS_ECDHE_PSK_WITH_3DES_EDE_CBC_SHA">>,
  <<49205, "TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA">>,
  <<49206, "TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA">>,
  <<49207, "TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA256">>,
  <<49208, "TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA384">>,
  <<49209, "TLS_ECDHE_PSK_WITH_NULL_SHA">>,
  <<49210, "TLS_ECDHE_PSK_WITH_NULL_SHA256">>,
  <<49211, "TLS_ECDHE_PSK_WITH_NULL_SHA384">>,
  <<49212, "TLS_RSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49213, "TLS_RSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49214, "TLS_DH_DSS_WITH_ARIA_128_CBC_SHA256">>,
  <<49215, "TLS_DH_DSS_WITH_ARIA_256_CBC_SHA384">>,
  <<49216, "TLS_DH_RSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49217, "TLS_DH_RSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49218, "TLS_DHE_DSS_WITH_ARIA_128_CBC_SHA256">>,
  <<49219, "TLS_DHE_DSS_WITH_ARIA_256_CBC_SHA384">>,
  <<49220, "TLS_DHE_RSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49221, "TLS_DHE_RSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49222, "TLS_DH_anon_WITH_ARIA_128_CBC_SHA256">>,
  <<49223, "TLS_DH_anon_WITH_ARIA_256_CBC_SHA384">>,
  <<49224, "TLS_ECDHE_ECDSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49225, "TLS_ECDHE_ECDSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49226, "TLS_ECDH_ECDSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49227, "TLS_ECDH_ECDSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49228, "TLS_ECDHE_RSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49229, "TLS_ECDHE_RSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49230, "TLS_ECDH_RSA_WITH_ARIA_128_CBC_SHA256">>,
  <<49231, "TLS_ECDH_RSA_WITH_ARIA_256_CBC_SHA384">>,
  <<49232, "TLS_RSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49233, "TLS_RSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49234, "TLS_DHE_RSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49235, "TLS_DHE_RSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49236, "TLS_DH_RSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49237, "TLS_DH_RSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49238, "TLS_DHE_DSS_WITH_ARIA_128_GCM_SHA256">>,
  <<49239, "TLS_DHE_DSS_WITH_ARIA_256_GCM_SHA384">>,
  <<49240, "TLS_DH_DSS_WITH_ARIA_128_GCM_SHA256">>,
  <<49241, "TLS_DH_DSS_WITH_ARIA_256_GCM_SHA384">>,
  <<49242, "TLS_DH_anon_WITH_ARIA_128_GCM_SHA256">>,
  <<49243, "TLS_DH_anon_WITH_ARIA_256_GCM_SHA384">>,
  <<49244, "TLS_ECDHE_ECDSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49245, "TLS_ECDHE_ECDSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49246, "TLS_ECDH_ECDSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49247, "TLS_ECDH_ECDSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49248, "TLS_ECDHE_RSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49249, "TLS_ECDHE_RSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49250, "TLS_ECDH_RSA_WITH_ARIA_128_GCM_SHA256">>,
  <<49251, "TLS_ECDH_RSA_WITH_ARIA_256_GCM_SHA384">>,
  <<49252, "TLS_PSK_WITH_ARIA_128_CBC_SHA256">>,
  <<49253, "TLS_PSK_WITH_ARIA_256_CBC_SHA384">>,
  <<49254, "TLS_DHE_PSK_WITH_ARIA_128_CBC_SHA256">>,
  <<49255, "TLS_DHE_PSK_WITH_ARIA_256_CBC_SHA384">>,
  <<49256, "TLS_RSA_PSK_WITH_ARIA_128_CBC_SHA256">>,
  <<49257, "TLS_RSA_PSK_WITH_ARIA_256_CBC_SHA384">>,
  <<49258, "TLS_PSK_WITH_ARIA_128_GCM_SHA256">>,
  <<49259, "TLS_PSK_WITH_ARIA_256_GCM_SHA384">>,
  <<49260, "TLS_DHE_PSK_WITH_ARIA_128_GCM_SHA256">>,
  <<49261, "TLS_DHE_PSK_WITH_ARIA_256_GCM_SHA384">>,
  <<49262, "TLS_RSA_PSK_WITH_ARIA_128_GCM_SHA256">>,
  <<49263, "TLS_RSA_PSK_WITH_ARIA_256_GCM_SHA384">>,
  <<49264, "TLS_ECDHE_PSK_WITH_ARIA_128_CBC_SHA256">>,
  <<49265, "TLS_ECDHE_PSK_WITH_ARIA_256_CBC_SHA384">>,
  <<49266, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49267, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49268, "TLS_ECDH_ECDSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49269, "TLS_ECDH_ECDSA_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49270, "TLS_ECDHE_RSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49271, "TLS_ECDHE_RSA_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49272, "TLS_ECDH_RSA_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49273, "TLS_ECDH_RSA_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49274, "TLS_RSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49275, "TLS_RSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49276, "TLS_DHE_RSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49277, "TLS_DHE_RSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49278, "TLS_DH_RSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49279, "TLS_DH_RSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49280, "TLS_DHE_DSS_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49281, "TLS_DHE_DSS_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49282, "TLS_DH_DSS_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49283, "TLS_DH_DSS_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49284, "TLS_DH_anon_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49285, "TLS_DH_anon_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49286, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49287, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49288, "TLS_ECDH_ECDSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49289, "TLS_ECDH_ECDSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49290, "TLS_ECDHE_RSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49291, "TLS_ECDHE_RSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49292, "TLS_ECDH_RSA_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49293, "TLS_ECDH_RSA_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49294, "TLS_PSK_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49295, "TLS_PSK_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49296, "TLS_DHE_PSK_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49297, "TLS_DHE_PSK_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49298, "TLS_RSA_PSK_WITH_CAMELLIA_128_GCM_SHA256">>,
  <<49299, "TLS_RSA_PSK_WITH_CAMELLIA_256_GCM_SHA384">>,
  <<49300, "TLS_PSK_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49301, "TLS_PSK_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49302, "TLS_DHE_PSK_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49303, "TLS_DHE_PSK_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49304, "TLS_RSA_PSK_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49305, "TLS_RSA_PSK_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49306, "TLS_ECDHE_PSK_WITH_CAMELLIA_128_CBC_SHA256">>,
  <<49307, "TLS_ECDHE_PSK_WITH_CAMELLIA_256_CBC_SHA384">>,
  <<49308, "TLS_RSA_WITH_AES_128_CCM">>,
  <<49309, "TLS_RSA_WITH_AES_256_CCM">>,
  <<49310, "TLS_DHE_RSA_WITH_AES_128_CCM">>,
  <<49311, "TLS_DHE_RSA_WITH_AES_256_CCM">>,
  <<49312, "TLS_RSA_WITH_AES_128_CCM_8">>,
  <<49313, "TLS_RSA_WITH_AES_256_CCM_8">>,
  <<49314, "TLS_DHE_RSA_WITH_AES_128_CCM_8">>,
  <<49315, "TLS_DHE_RSA_WITH_AES_256_CCM_8">>,
  <<49316, "TLS_PSK_WITH_AES_128_CCM">>,
  <<49317, "TLS_PSK_WITH_AES_256_CCM">>,
  <<49318, "TLS_DHE_PSK_WITH_AES_128_CCM">>,
  <<49319, "TLS_DHE_PSK_WITH_AES_256_CCM">>,
  <<49320, "TLS_PSK_WITH_AES_128_CCM_8">>,
  <<49321, "TLS_PSK_WITH_AES_256_CCM_8">>,
  <<49322, "TLS_PSK_DHE_WITH_AES_128_CCM_8">>,
  <<49323, "TLS_PSK_DHE_WITH_AES_256_CCM_8">>,
  <<49324, "TLS_ECDHE_ECDSA_WITH_AES_128_CCM">>,
  <<49325, "TLS_ECDHE_ECDSA_WITH_AES_256_CCM">>,
  <<49326, "TLS_ECDHE_ECDSA_WITH_AES_128_CCM_8">>,
  <<49327, "TLS_ECDHE_ECDSA_WITH_AES_256_CCM_8">>,
  <<52392, "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256">>,
  <<52393, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256">>,
  <<52394, "TLS_DHE_RSA_WITH_CHACHA20_POLY1305_SHA256">>,
  <<52395, "TLS_PSK_WITH_CHACHA20_POLY1305_SHA256">>,
  <<52396, "TLS_ECDHE_PSK_WITH_CHACHA20_POLY1305_SHA256">>,
  <<52397, "TLS_DHE_PSK_WITH_CHACHA20_POLY1305_SHA256">>,
  <<52398, "TLS_RSA_PSK_WITH_CHACHA20_POLY1305_SHA256">>,
  <<65278, "SSL_RSA_FIPS_WITH_DES_CBC_SHA">>,
  <<65279, "SSL_RSA_FIPS_WITH_3DES_EDE_CBC_SHA">>>>
T_ECPointFormat == <<
  <<0, "Uncompressed">>,
  <<1, "ANSIX962CompressedPrime">>,
  <<2, "ANSIX962CompressedChar2">>>>
T_HeartbeatMode == <<
  <<1, "PeerAllowedToSend">>,
  <<2, "PeerNotAllowedToSend">>>>
T_ECCurveType == <<
  <<1, "ExplicitPrime">>,
  <<2, "ExplicitChar2">>,
  <<3, "NamedCurve">>>>
T_SignatureScheme == <<
  <<513, "RSA_PKCS1_SHA1">>,
  <<515, "ECDSA_SHA1_Legacy">>,
  <<1025, "RSA_PKCS1_SHA256">>,
  <<1027, "ECDSA_NISTP256_SHA256">>,
  <<1281, "RSA_PKCS1_SHA384">>,
  <<1283, "ECDSA_NISTP384_SHA384">>,
  <<1537, "RSA_PKCS1_SHA512">>,
  <<1539, "ECDSA_NISTP521_SHA512">>,
  <<2052, "RSA_PSS_SHA256">>,
  <<2053, "RSA_PSS_SHA384">>,
  <<2054, "RSA_PSS_SHA512">>,
  <<2055, "ED25519">>,
  <<2056, "ED448">>>>
T_PSKKeyExchangeMode == <<
  <<0, "PSK_KE">>,
  <<1, "PSK_DHE_KE">>>>
T_KeyUpdateRequest == <<
  <<0, "UpdateNotRequested">>,
  <<1, "UpdateRequested">>>>
T_CertificateStatusType == <<
  <<1, "OCSP">>>>
EnumTable == [n \in {"ProtocolVersion", "HashAlgorithm", "SignatureAlgorithm", "ClientCertificateType", "Compression", "ContentType", "HandshakeType", "AlertLevel", "AlertDescription", "HeartbeatMessageType", "ExtensionType", "ServerNameType", "NamedCurve", "NamedGroup", "CipherSuite", "ECPointFormat", "HeartbeatMode", "ECCurveType", "SignatureScheme", "PSKKeyExchangeMode", "KeyUpdateRequest", "CertificateStatusType"} |->
  CASE n = "ProtocolVersion" -> T_ProtocolVersion
    [] n = "HashAlgorithm" -> T_HashAlgorithm
    [] n = "SignatureAlgorithm" -> T_SignatureAlgorithm
    [] n = "ClientCertificateType" -> T_ClientCertificateType
    [] n = "Compression" -> T_Compression
    [] n = "ContentType" -> T_ContentType
    [] n = "HandshakeType" -> T_HandshakeType
    [] n = "AlertLevel" -> T_AlertLevel
    [] n = "AlertDescription" -> T_AlertDescription
    [] n = "HeartbeatMessageType" -> T_HeartbeatMessageType
    [] n = "ExtensionType" -> T_ExtensionType
    [] n = "ServerNameType" -> T_ServerNameType
    [] n = "NamedCurve" -> T_NamedCurve
    [] n = "NamedGroup" -> T_NamedGroup
    [] n = "CipherSuite" -> T_CipherSuite
    [] n = "ECPointFormat" -> T_ECPointFormat
    [] n = "HeartbeatMode" -> T_HeartbeatMode
    [] n = "ECCurveType" -> T_ECCurveType
    [] n = "SignatureScheme" -> T_SignatureScheme
    [] n = "PSKKeyExchangeMode" -> T_PSKKeyExchangeMode
    [] n = "KeyUpdateRequest" -> T_KeyUpdateRequest
    [] n = "CertificateStatusType" -> T_CertificateStatusType]
Wide == {"ProtocolVersion", "ExtensionType", "NamedCurve", "NamedGroup", "CipherSuite", "SignatureScheme"}
=============================================================================
