//! Handshake wire codec: parse, re-encode and query real messages.
use crate::util::*;
use serde_json::{Value, json};
use tls_core::msgs::{
    codec::{Codec, Reader},
    enums::*,
    handshake::*,
};

type T = Vec<i64>;

fn op(t: &mut T, b: &[u8]) {
    t.push(b.len() as i64);
    raw(t, b);
}
fn raw(t: &mut T, b: &[u8]) {
    if b.len() > 400 {
        t.push(-1);
    } else {
        t.extend(b.iter().map(|x| *x as i64));
    }
}
fn u32t(t: &mut T, x: u32) {
    t.push((x >> 16) as i64);
    t.push((x & 0xffff) as i64);
}
fn u8s<E>(t: &mut T, v: &[E], f: impl Fn(&E) -> u8) {
    t.push(v.len() as i64);
    t.extend(v.iter().map(|x| f(x) as i64));
}
fn u16s<E>(t: &mut T, v: &[E], f: impl Fn(&E) -> u16) {
    t.push(v.len() as i64);
    t.extend(v.iter().map(|x| f(x) as i64));
}
fn unk(t: &mut T, u: &UnknownExtension) {
    op(t, &u.payload.0)
}
fn sni(t: &mut T, v: &ServerNameRequest) {
    t.push(v.len() as i64);
    for n in v {
        t.push(n.typ.get_u8() as i64);
        match &n.payload {
            ServerNamePayload::HostName((r, d)) => {
                // both stored forms must agree
                let s: &str = d.as_ref();
                if s.as_bytes() == r.0.as_slice() {
                    op(t, &r.0)
                } else {
                    t.push(-7)
                }
            }
            ServerNamePayload::Unknown(p) => op(t, &p.0),
        }
    }
}
fn shares(t: &mut T, v: &KeyShareEntries) {
    t.push(v.len() as i64);
    for k in v {
        t.push(k.group.get_u16() as i64);
        op(t, &k.payload.0)
    }
}
fn ops8(t: &mut T, v: &[tls_core::msgs::base::PayloadU8]) {
    t.push(v.len() as i64);
    v.iter().for_each(|x| op(t, &x.0))
}
fn ops16(t: &mut T, v: &[tls_core::msgs::base::PayloadU16]) {
    t.push(v.len() as i64);
    v.iter().for_each(|x| op(t, &x.0))
}
fn psk(t: &mut T, o: &PresharedKeyOffer) {
    t.push(o.identities.len() as i64);
    for i in &o.identities {
        op(t, &i.identity.0);
        u32t(t, i.obfuscated_ticket_age);
    }
    ops8(t, &o.binders);
}

fn cext(e: &ClientExtension) -> T {
    let mut t = vec![e.get_type().get_u16() as i64, 1];
    use ClientExtension as C;
    match e {
        C::ECPointFormats(v) => u8s(&mut t, v, |x| x.get_u8()),
        C::NamedGroups(v) => u16s(&mut t, v, |x| x.get_u16()),
        C::SignatureAlgorithms(v) => u16s(&mut t, v, |x| x.get_u16()),
        C::ServerName(v) => sni(&mut t, v),
        C::SessionTicket(ClientSessionTicket::Request) => t.push(0),
        C::SessionTicket(ClientSessionTicket::Offer(p)) => op(&mut t, &p.0),
        C::Protocols(v) => ops8(&mut t, v),
        C::SupportedVersions(v) => u16s(&mut t, v, |x| x.get_u16()),
        C::KeyShare(v) => shares(&mut t, v),
        C::PresharedKeyModes(v) => u8s(&mut t, v, |x| x.get_u8()),
        C::PresharedKey(o) => psk(&mut t, o),
        C::Cookie(p) => op(&mut t, &p.0),
        C::ExtendedMasterSecretRequest | C::SignedCertificateTimestampRequest | C::EarlyData => t.push(0),
        C::CertificateStatusRequest(CertificateStatusRequest::OCSP(o)) => {
            t.push(1);
            ops16(&mut t, &o.responder_ids);
            op(&mut t, &o.extensions.0);
        }
        C::CertificateStatusRequest(CertificateStatusRequest::Unknown((ty, p))) => {
            t.push(ty.get_u8() as i64);
            op(&mut t, &p.0)
        }
        C::TransportParameters(v) | C::TransportParametersDraft(v) => op(&mut t, v),
        C::Unknown(u) => {
            t[1] = 0;
            unk(&mut t, u)
        }
    }
    t
}
fn sext(e: &ServerExtension) -> T {
    let mut t = vec![e.get_type().get_u16() as i64, 1];
    use ServerExtension as S;
    match e {
        S::ECPointFormats(v) => u8s(&mut t, v, |x| x.get_u8()),
        S::ServerNameAck | S::SessionTicketAck | S::ExtendedMasterSecretAck | S::CertificateStatusAck | S::EarlyData => {}
        S::RenegotiationInfo(p) => op(&mut t, &p.0),
        S::Protocols(v) => ops8(&mut t, v),
        S::KeyShare(k) => {
            t.push(k.group.get_u16() as i64);
            op(&mut t, &k.payload.0)
        }
        S::PresharedKey(i) => t.push(*i as i64),
        S::SignedCertificateTimestamp(v) => ops16(&mut t, v),
        S::SupportedVersions(v) => t.push(v.get_u16() as i64),
        S::TransportParameters(v) | S::TransportParametersDraft(v) => op(&mut t, v),
        S::Unknown(u) => {
            t[1] = 0;
            unk(&mut t, u)
        }
    }
    t
}
fn hext(e: &HelloRetryExtension) -> T {
    let mut t = vec![e.get_type().get_u16() as i64, 1];
    match e {
        HelloRetryExtension::KeyShare(g) => t.push(g.get_u16() as i64),
        HelloRetryExtension::Cookie(p) => op(&mut t, &p.0),
        HelloRetryExtension::SupportedVersions(v) => t.push(v.get_u16() as i64),
        HelloRetryExtension::Unknown(u) => {
            t[1] = 0;
            unk(&mut t, u)
        }
    }
    t
}
fn certext(e: &CertificateExtension) -> T {
    let mut t = vec![e.get_type().get_u16() as i64, 1];
    match e {
        CertificateExtension::CertificateStatus(s) => {
            t.push(1);
            op(&mut t, &s.ocsp_response.0)
        }
        CertificateExtension::SignedCertificateTimestamp(v) => ops16(&mut t, v),
        CertificateExtension::Unknown(u) => {
            t[1] = 0;
            unk(&mut t, u)
        }
    }
    t
}
fn crext(e: &CertReqExtension) -> T {
    let mut t = vec![e.get_type().get_u16() as i64, 1];
    match e {
        CertReqExtension::SignatureAlgorithms(v) => u16s(&mut t, v, |x| x.get_u16()),
        CertReqExtension::AuthorityNames(v) => ops16(&mut t, v),
        CertReqExtension::Unknown(u) => {
            t[1] = 0;
            unk(&mut t, u)
        }
    }
    t
}
fn nstext(e: &NewSessionTicketExtension) -> T {
    let mut t = vec![e.get_type().get_u16() as i64, 1];
    match e {
        NewSessionTicketExtension::EarlyData(x) => u32t(&mut t, *x),
        NewSessionTicketExtension::Unknown(u) => {
            t[1] = 0;
            unk(&mut t, u)
        }
    }
    t
}
fn list<E>(t: &mut T, v: &[E], f: impl Fn(&E) -> T) {
    t.push(v.len() as i64);
    v.iter().for_each(|x| t.extend(f(x)))
}
fn sid(t: &mut T, s: &SessionID) {
    let e = s.get_encoding();
    if s.len() != e[0] as usize || s.is_empty() != (e[0] == 0) {
        t.push(-5);
    }
    op(t, &e[1..]);
}

pub fn tokens(m: &HandshakeMessagePayload) -> (i64, T) {
    let mut t: T = vec![];
    let tt = m.typ.get_u8() as i64;
    use HandshakePayload as H;
    match &m.payload {
        H::HelloRequest | H::ServerHelloDone | H::EndOfEarlyData => {}
        H::ClientHello(c) => {
            t.push(c.client_version.get_u16() as i64);
            raw(&mut t, &c.random.0);
            sid(&mut t, &c.session_id);
            u16s(&mut t, &c.cipher_suites, |x| x.get_u16());
            u8s(&mut t, &c.compression_methods, |x| x.get_u8());
            list(&mut t, &c.extensions, cext);
        }
        H::ServerHello(s) => {
            t.push(s.legacy_version.get_u16() as i64);
            raw(&mut t, &s.random.0);
            sid(&mut t, &s.session_id);
            t.push(s.cipher_suite.get_u16() as i64);
            t.push(s.compression_method.get_u8() as i64);
            list(&mut t, &s.extensions, sext);
        }
        H::HelloRetryRequest(s) => {
            t.push(s.legacy_version.get_u16() as i64);
            // the random is implied: it is what re-encoding emits
            raw(&mut t, &s.get_encoding()[2..34]);
            sid(&mut t, &s.session_id);
            t.push(s.cipher_suite.get_u16() as i64);
            t.push(0);
            list(&mut t, &s.extensions, hext);
        }
        H::Certificate(v) => {
            t.push(v.len() as i64);
            v.iter().for_each(|c| op(&mut t, &c.0));
        }
        H::CertificateTLS13(c) => {
            op(&mut t, &c.context.0);
            t.push(c.entries.len() as i64);
            for e in &c.entries {
                op(&mut t, &e.cert.0);
                list(&mut t, &e.exts, certext);
            }
        }
        H::ServerKeyExchange(ServerKeyExchangePayload::Unknown(p)) => op(&mut t, &p.0),
        H::ServerKeyExchange(_) => t.push(-9),
        H::CertificateRequest(c) => {
            u8s(&mut t, &c.certtypes, |x| x.get_u8());
            u16s(&mut t, &c.sigschemes, |x| x.get_u16());
            ops16(&mut t, &c.canames);
        }
        H::CertificateRequestTLS13(c) => {
            op(&mut t, &c.context.0);
            list(&mut t, &c.extensions, crext);
        }
        H::CertificateVerify(d) => {
            t.push(d.scheme.get_u16() as i64);
            op(&mut t, &d.sig.0)
        }
        H::NewSessionTicket(n) => {
            u32t(&mut t, n.lifetime_hint);
            op(&mut t, &n.ticket.0)
        }
        H::NewSessionTicketTLS13(n) => {
            u32t(&mut t, n.lifetime);
            u32t(&mut t, n.age_add);
            op(&mut t, &n.nonce.0);
            op(&mut t, &n.ticket.0);
            list(&mut t, &n.exts, nstext);
        }
        H::EncryptedExtensions(v) => list(&mut t, v, sext),
        H::KeyUpdate(k) => t.push(k.get_u8() as i64),
        H::CertificateStatus(s) => {
            t.push(1);
            op(&mut t, &s.ocsp_response.0)
        }
        H::ClientKeyExchange(p) | H::Finished(p) | H::MessageHash(p) | H::Unknown(p) => op(&mut t, &p.0),
    }
    (tt, t)
}

fn parse(b: &[u8], v: u16) -> Option<(HandshakeMessagePayload, usize)> {
    let mut r = Reader::init(b);
    let m = HandshakeMessagePayload::read_version(&mut r, ProtocolVersion::from(v))?;
    Some((m, r.used()))
}

pub fn hs_out(b: &[u8], v: u16) -> Value {
    match guard(|| {
        parse(b, v).map(|(m, used)| {
            let (tt, t) = tokens(&m);
            let renc = m.get_encoding() == b[..used];
            (tt, t, used, renc)
        })
    }) {
        None => json!({"ok": true, "tt": -1, "used": 0, "t": ["panic"], "renc": false}),
        Some(None) => json!({"ok": false, "tt": 0, "used": 0, "t": [], "renc": false}),
        Some(Some((tt, t, used, renc))) => json!({"ok": true, "tt": tt, "used": used, "t": t, "renc": renc}),
    }
}

const TYPES: [u16; 19] = [0, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57, 65281, 65445, 21];
fn b(x: bool) -> i64 {
    x as i64
}
fn opt(t: &mut T, o: Option<T>) {
    match o {
        None => t.push(0),
        Some(x) => {
            t.push(1);
            t.extend(x)
        }
    }
}
fn of(f: impl FnOnce(&mut T)) -> T {
    let mut t = vec![];
    f(&mut t);
    t
}

fn q_ch(m: &HandshakeMessagePayload, c: &ClientHelloPayload) -> T {
    let mut t: T = vec![b(c.has_duplicate_extension())];
    for x in TYPES {
        opt(&mut t, c.find_extension(ExtensionType::from(x)).map(cext));
    }
    opt(&mut t, c.get_sni_extension().map(|v| of(|t| sni(t, v))));
    opt(&mut t, c.get_sigalgs_extension().map(|v| of(|t| u16s(t, v, |x| x.get_u16()))));
    opt(&mut t, c.get_namedgroups_extension().map(|v| of(|t| u16s(t, v, |x| x.get_u16()))));
    opt(&mut t, c.get_ecpoints_extension().map(|v| of(|t| u8s(t, v, |x| x.get_u8()))));
    opt(&mut t, c.get_alpn_extension().map(|v| of(|t| ops8(t, v))));
    opt(&mut t, c.get_ticket_extension().map(cext));
    opt(&mut t, c.get_versions_extension().map(|v| of(|t| u16s(t, v, |x| x.get_u16()))));
    opt(&mut t, c.get_keyshare_extension().map(|v| of(|t| shares(t, v))));
    opt(&mut t, c.get_psk().map(|v| of(|t| psk(t, v))));
    opt(&mut t, c.get_psk_modes().map(|v| of(|t| u8s(t, v, |x| x.get_u8()))));
    t.push(b(c.has_keyshare_extension_with_duplicates()));
    t.push(b(c.check_psk_ext_is_last()));
    t.push(b(c.psk_mode_offered(PSKKeyExchangeMode::from(0))));
    t.push(b(c.psk_mode_offered(PSKKeyExchangeMode::from(1))));
    t.push(b(c.ems_support_offered()));
    t.push(b(c.early_data_extension_offered()));
    opt(
        &mut t,
        c.get_sni_extension().map(|v| {
            of(|t| {
                t.push(b(v.has_duplicate_names_for_type()));
                opt(t, v.get_single_hostname().map(|d| of(|t| op(t, AsRef::<str>::as_ref(&d).as_bytes()))));
            })
        }),
    );
    opt(
        &mut t,
        c.get_alpn_extension().map(|v| {
            of(|t| {
                let sl = v.to_slices();
                let back = ProtocolNameList::from_slices(&sl);
                if back.get_encoding() != v.get_encoding() {
                    t.push(-8);
                }
                opt(t, v.as_single_slice().map(|s| of(|t| op(t, s))))
            })
        }),
    );
    t.push(m.get_encoding_for_binder_signing().len() as i64);
    t
}
fn q_srv(x: &impl HasServerExtensions) -> T {
    let mut t: T = vec![b(x.has_duplicate_extension())];
    for ty in TYPES {
        opt(&mut t, x.find_extension(ExtensionType::from(ty)).map(sext));
    }
    opt(&mut t, x.get_alpn_protocol().map(|s| of(|t| op(t, s))));
    t.push(b(x.early_data_extension_offered()));
    t
}

pub fn query(m: &HandshakeMessagePayload) -> T {
    use HandshakePayload as H;
    match &m.payload {
        H::ClientHello(c) => q_ch(m, c),
        H::ServerHello(s) => {
            let mut t = q_srv(s);
            opt(&mut t, s.get_key_share().map(|k| of(|t| {
                t.push(k.group.get_u16() as i64);
                op(t, &k.payload.0)
            })));
            opt(&mut t, s.get_psk_index().map(|i| vec![i as i64]));
            opt(&mut t, s.get_ecpoints_extension().map(|v| of(|t| u8s(t, v, |x| x.get_u8()))));
            t.push(b(s.ems_support_acked()));
            opt(&mut t, s.get_sct_list().map(|v| of(|t| ops16(t, v))));
            opt(&mut t, s.get_supported_versions().map(|v| vec![v.get_u16() as i64]));
            t
        }
        H::EncryptedExtensions(e) => q_srv(e),
        H::HelloRetryRequest(h) => {
            let mut t = vec![b(h.has_duplicate_extension()), b(h.has_unknown_extension())];
            opt(&mut t, h.get_requested_key_share_group().map(|g| vec![g.get_u16() as i64]));
            opt(&mut t, h.get_cookie().map(|c| of(|t| op(t, &c.0))));
            opt(&mut t, h.get_supported_versions().map(|v| vec![v.get_u16() as i64]));
            t
        }
        H::CertificateTLS13(c) => {
            let mut t = vec![
                b(c.any_entry_has_duplicate_extension()),
                b(c.any_entry_has_unknown_extension()),
                b(c.any_entry_has_extension()),
            ];
            op(&mut t, &c.get_end_entity_ocsp());
            opt(&mut t, c.get_end_entity_scts().map(|v| of(|t| ops16(t, &v))));
            let v = c.convert();
            t.push(v.len() as i64);
            v.iter().for_each(|c| op(&mut t, &c.0));
            t
        }
        H::CertificateRequestTLS13(c) => {
            let mut t = vec![];
            for ty in [13u16, 47, 21] {
                opt(&mut t, c.find_extension(ExtensionType::from(ty)).map(crext));
            }
            opt(&mut t, c.get_sigalgs_extension().map(|v| of(|t| u16s(t, v, |x| x.get_u16()))));
            opt(&mut t, c.get_authorities_extension().map(|v| of(|t| ops16(t, v))));
            t
        }
        H::NewSessionTicketTLS13(n) => {
            let mut t = vec![b(n.has_duplicate_extension())];
            for ty in [42u16, 21] {
                opt(&mut t, n.find_extension(ExtensionType::from(ty)).map(nstext));
            }
            opt(&mut t, n.get_max_early_data_size().map(|x| of(|t| u32t(t, x))));
            t
        }
        H::ServerKeyExchange(s) => {
            let mut t = vec![];
            use KeyExchangeAlgorithm::*;
            for k in [ECDHE, ECDH, RSA, DHE, DH, BulkOnly] {
                opt(&mut t, s.unwrap_given_kxa(&k).map(|x| of(|t| {
                    t.push(x.params.curve_params.curve_type.get_u8() as i64);
                    t.push(x.params.curve_params.named_group.get_u16() as i64);
                    op(t, &x.params.public.0);
                    t.push(x.dss.scheme.get_u16() as i64);
                    op(t, &x.dss.sig.0);
                })));
            }
            t
        }
        _ => vec![],
    }
}

fn binder(bs: &[u8], nb: &[u8]) -> Option<Vec<u8>> {
    let (mut m, _) = parse(bs, 771)?;
    match &mut m.payload {
        HandshakePayload::ClientHello(c) => {
            if let Some(ClientExtension::PresharedKey(o)) = c.extensions.last() {
                if o.binders.is_empty() {
                    return None;
                }
            }
            c.set_psk_binder(nb.to_vec());
        }
        _ => return None,
    }
    Some(m.get_encoding())
}

fn ecdh(bs: &[u8]) -> T {
    use tls_core::suites::tls12::decode_ecdh_params;
    let mut t = vec![];
    opt(&mut t, decode_ecdh_params::<ServerECDHParams>(bs).map(|p| of(|t| {
        t.push(p.curve_params.curve_type.get_u8() as i64);
        t.push(p.curve_params.named_group.get_u16() as i64);
        op(t, &p.public.0);
    })));
    opt(&mut t, decode_ecdh_params::<ClientECDHParams>(bs).map(|p| of(|t| op(t, &p.public.0))));
    t
}

// ---------------------------------------------------------------- generation
// Mostly-valid messages with small random content; the wire format is written
// out by hand here so that the generator does not rely on the code under test.
pub struct Gen<'a>(pub &'a mut Rng);
impl Gen<'_> {
    fn u8(&mut self) -> u8 {
        *self.0.pick(&[0, 1, 2, 3, 4, 5, 20, 255, self.0.0 as u8])
    }
    fn u16(&mut self) -> Vec<u8> {
        let x: u16 = *self.0.pick(&[0, 1, 23, 24, 29, 0x0301, 0x0303, 0x0304, 0x0403, 0x0804, 0xc02b, 0xc02f, 0x1301, 0xffff, 0x00ff, self.0.0 as u16]);
        x.to_be_bytes().to_vec()
    }
    fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.0.below(max + 1);
        self.0.bytes(n)
    }
    fn len(lb: usize, v: Vec<u8>) -> Vec<u8> {
        let n = v.len() as u32;
        let mut r = n.to_be_bytes()[4 - lb..].to_vec();
        r.extend(v);
        r
    }
    fn op(&mut self, lb: usize, max: usize) -> Vec<u8> {
        let b = self.bytes(max);
        Self::len(lb, b)
    }
    fn many(&mut self, lb: usize, max: usize, mut f: impl FnMut(&mut Self) -> Vec<u8>) -> Vec<u8> {
        let n = if self.0.chance(1, 12) { self.0.range(max, 4 * max) } else { self.0.below(max + 1) };
        let mut v = vec![];
        for _ in 0..n {
            v.extend(f(self));
        }
        Self::len(lb, v)
    }
    fn sid(&mut self) -> Vec<u8> {
        let n = *self.0.pick(&[0usize, 1, 31, 32, 32, 33]);
        let b = self.0.bytes(n);
        Self::len(1, b)
    }
    fn host(&mut self) -> Vec<u8> {
        let l63 = "a".repeat(63);
        let l64 = "a".repeat(64);
        let long = format!("{l63}.{l63}.{l63}.{}", "b".repeat(61));
        let toolong = format!("{l63}.{l63}.{l63}.{}", "b".repeat(62));
        let c: Vec<String> = ["example.com", "a", "a.", "a.b", "", ".", "1.2", "a.1", "1a", "-a", "a-", "a--b.c", "a_b.c", "a..b", "a b", "EX.com", "127.0.0.1", "xn--a.b", "a.b-", "a-.b", "*.a", "1.", "1.a", "é.com"]
            .iter().map(|s| s.to_string()).chain([l63, l64, long, toolong]).collect();
        if self.0.chance(1, 6) {
            let n = self.0.below(8);
            (0..n).map(|_| *self.0.pick(b"ab01-._Z@ ")).collect()
        } else {
            self.0.pick(&c).clone().into_bytes()
        }
    }
    fn ext(&mut self, tab: &str) -> Vec<u8> {
        let known: &[u16] = match tab {
            "client" => &[0, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57, 65445, 21, 65281, 4660],
            "server" => &[0, 5, 11, 16, 18, 23, 35, 41, 42, 43, 51, 57, 65281, 65445, 10, 21, 4660],
            "hrr" => &[51, 44, 43, 10, 21],
            "cert" => &[5, 18, 21, 10],
            "certreq" => &[13, 47, 21, 5],
            _ => &[42, 21, 5],
        };
        let ty = *self.0.pick(known);
        let body = if self.0.chance(1, 12) {
            self.bytes(4)
        } else {
            match (tab, ty) {
                ("client", 0) => self.many(2, 2, |g| {
                    if g.0.chance(5, 6) {
                        let h = g.host();
                        let mut v = vec![0];
                        v.extend(Self::len(2, h));
                        v
                    } else {
                        let mut v = vec![g.0.range(1, 3) as u8];
                        v.extend(g.bytes(3));
                        v
                    }
                }),
                ("client" | "server", 11) => self.many(1, 3, |g| vec![g.u8()]),
                ("client", 10 | 13) | ("certreq", 13) => self.many(2, 3, |g| g.u16()),
                ("client" | "server", 16) => self.many(2, 2, |g| g.op(1, 4)),
                ("client", 43) => self.many(1, 3, |g| g.u16()),
                ("client", 51) => self.many(2, 3, |g| {
                    let mut v = g.u16();
                    v.extend(g.op(2, 3));
                    v
                }),
                ("client", 45) => self.many(1, 3, |g| vec![g.0.below(3) as u8]),
                ("client", 41) => {
                    let mut v = self.many(2, 2, |g| {
                        let mut v = g.op(2, 3);
                        v.extend(g.0.bytes(4));
                        v
                    });
                    v.extend(self.many(2, 2, |g| g.op(1, 4)));
                    v
                }
                ("client" | "hrr", 44) => self.op(2, 4),
                ("client", 5) => {
                    if self.0.chance(3, 4) {
                        let mut v = vec![1];
                        v.extend(self.many(2, 2, |g| g.op(2, 3)));
                        v.extend(self.op(2, 3));
                        v
                    } else {
                        let mut v = vec![self.u8()];
                        v.extend(self.bytes(3));
                        v
                    }
                }
                ("server", 51) => {
                    let mut v = self.u16();
                    v.extend(self.op(2, 4));
                    v
                }
                ("server", 41 | 43) | ("hrr", 51 | 43) => self.u16(),
                ("server" | "cert", 18) | ("certreq", 47) => self.many(2, 2, |g| g.op(2, 4)),
                ("server", 65281) => self.op(1, 3),
                ("server", 0 | 5 | 23 | 35 | 42) => vec![],
                ("cert", 5) => {
                    let mut v = vec![1];
                    v.extend(self.op(3, 4));
                    v
                }
                ("nst", 42) => self.0.bytes(4),
                ("client", 18 | 23 | 42 | 35) if self.0.chance(2, 3) => vec![],
                _ => self.bytes(5),
            }
        };
        let mut v = ty.to_be_bytes().to_vec();
        v.extend(Self::len(2, body));
        v
    }
    fn exts(&mut self, tab: &str, max: usize) -> Vec<u8> {
        self.many(2, max, |g| g.ext(tab))
    }
    pub fn msg(&mut self, t: u8, v: u16) -> Vec<u8> {
        let mut o: Vec<u8> = vec![];
        match t {
            1 => {
                o.extend(self.u16());
                o.extend(self.0.bytes(32));
                o.extend(self.sid());
                o.extend(self.many(2, 3, |g| g.u16()));
                o.extend(self.many(1, 2, |g| vec![g.u8()]));
                o.extend(self.exts("client", 5));
                if self.0.chance(1, 4) {
                    // pre-shared key last
                    let n0 = 2 + 32 + 1 + o[34] as usize;
                    let n1 = n0 + 2 + u16::from_be_bytes([o[n0], o[n0 + 1]]) as usize;
                    let n2 = n1 + 1 + o[n1] as usize;
                    let mut x = 41u16.to_be_bytes().to_vec();
                    let mut body = Self::len(2, {
                        let mut v = self.op(2, 3);
                        v.extend(self.0.bytes(4));
                        v
                    });
                    let mut bl = self.op(1, 4);
                    if self.0.chance(1, 2) {
                        bl.extend(self.op(1, 4));
                    }
                    body.extend(Self::len(2, bl));
                    x.extend(Self::len(2, body));
                    let l = u16::from_be_bytes([o[n2], o[n2 + 1]]) + x.len() as u16;
                    o[n2..n2 + 2].copy_from_slice(&l.to_be_bytes());
                    o.extend(x);
                }
            }
            2 => {
                o.extend(self.u16());
                let hrr = self.0.chance(1, 3);
                if hrr {
                    o.extend(HRR);
                    if self.0.chance(1, 8) {
                        let i = 2 + self.0.below(32);
                        o[i] ^= 1 << self.0.below(8);
                    }
                } else {
                    o.extend(self.0.bytes(32));
                }
                o.extend(self.sid());
                o.extend(self.u16());
                o.push(if self.0.chance(5, 6) { 0 } else { 1 });
                o.extend(self.exts(if hrr { "hrr" } else { "server" }, 4));
            }
            4 if v == 772 => {
                o.extend(self.0.bytes(8));
                o.extend(self.op(1, 3));
                o.extend(self.op(2, 5));
                o.extend(self.exts("nst", 2));
            }
            4 => {
                o.extend(self.0.bytes(4));
                o.extend(self.op(2, 5));
            }
            8 => o.extend(self.exts("server", 4)),
            11 if v == 772 => {
                o.extend(self.op(1, 3));
                o.extend(self.many(3, 3, |g| {
                    let mut v = g.op(3, 5);
                    v.extend(g.exts("cert", 3));
                    v
                }));
            }
            11 => {
                // around the 64 KiB limit now and then
                if self.0.chance(1, 60) {
                    let n = *self.0.pick(&[65532usize, 65533, 65534, 66000]);
                    let c = Self::len(3, vec![7; n]);
                    o.extend(Self::len(3, c));
                } else {
                    o.extend(self.many(3, 3, |g| g.op(3, 6)));
                }
            }
            13 if v == 772 => {
                o.extend(self.op(1, 3));
                o.extend(self.exts("certreq", 3));
            }
            13 => {
                o.extend(self.many(1, 3, |g| vec![g.u8()]));
                o.extend(self.many(2, 3, |g| g.u16()));
                o.extend(self.many(2, 2, |g| g.op(2, 4)));
            }
            15 => {
                o.extend(self.u16());
                o.extend(self.op(2, 8));
            }
            22 => {
                o.push(if self.0.chance(5, 6) { 1 } else { self.u8() });
                o.extend(self.op(3, 6));
            }
            12 => {
                o.push(if self.0.chance(5, 6) { 3 } else { self.u8() });
                o.extend(self.u16());
                o.extend(self.op(1, 8));
                o.extend(self.u16());
                o.extend(self.op(2, 8));
            }
            24 => o.push(self.u8()),
            0 | 5 | 14 => {
                if self.0.chance(1, 4) {
                    o.extend(self.bytes(2))
                }
            }
            _ => {
                let n = if self.0.chance(1, 10) { 500 } else { 12 };
                o.extend(self.bytes(n))
            }
        }
        let mut m = vec![t];
        m.extend(Self::len(3, o));
        if self.0.chance(1, 8) {
            m.extend(self.bytes(4)); // following message bytes
        }
        m
    }
    pub fn mutate(&mut self, m: &mut Vec<u8>) {
        for _ in 0..self.0.range(1, 2) {
            let n = m.len();
            if n == 0 {
                return;
            }
            let i = if self.0.chance(1, 3) { self.0.below(n.min(8)) } else { self.0.below(n) };
            match self.0.below(6) {
                0 => m[i] = m[i].wrapping_add(1),
                1 => m[i] = m[i].wrapping_sub(1),
                2 => m[i] = self.u8(),
                3 => m.truncate(i),
                4 => m.insert(i, self.u8()),
                _ => {
                    m.remove(i);
                }
            }
        }
        // sometimes repair the outer length so that the body is reached
        if m.len() >= 4 && self.0.chance(1, 2) {
            let n = (m.len() - 4) as u32;
            m[1..4].copy_from_slice(&n.to_be_bytes()[1..]);
        }
    }
}
const HRR: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11,
    0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];
const KINDS: [u8; 19] = [0, 1, 1, 1, 1, 2, 2, 4, 5, 6, 8, 11, 12, 13, 14, 15, 20, 22, 24];

pub fn gen_msg(r: &mut Rng, v: u16) -> Vec<u8> {
    let t = if r.chance(1, 20) { *r.pick(&[3u8, 7, 9, 16, 21, 23, 67, 254, 255]) } else { *r.pick(&KINDS) };
    let mut g = Gen(r);
    let mut m = g.msg(t, v);
    if g.0.chance(2, 5) {
        g.mutate(&mut m);
    }
    m
}

fn hs_event(bs: &[u8], v: u16) -> Value {
    json!({"ev": "hs", "b": bs, "v": v, "out": hs_out(bs, v)})
}

/// hs: parse and re-encode. q: accessor queries.
pub fn main(a: &[String], queries: bool) {
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut run: Vec<Value> = vec![];
    let mut one = |bs: Vec<u8>, v: u16, nb: &[u8]| {
        if !queries {
            run.push(hs_event(&bs, v));
        } else {
            let q = guard(|| parse(&bs, v).map(|(m, _)| query(&m)));
            match q {
                None => run.push(json!({"ev": "q", "b": bs, "v": v, "out": {"q": [-99]}})),
                Some(None) => {}
                Some(Some(q)) => run.push(json!({"ev": "q", "b": bs, "v": v, "out": {"q": q}})),
            }
            if bs[0] == 1 {
                if let Some(Some(x)) = guard(|| binder(&bs, nb)) {
                    run.push(json!({"ev": "binder", "b": &bs[..parse(&bs, v).unwrap().1], "nb": nb, "out": {"b": x}}));
                }
            }
            if bs[0] == 12 && bs.len() > 4 {
                for k in [bs.len(), bs.len().saturating_sub(3), 12] {
                    if k > 4 && k <= bs.len() {
                        run.push(json!({"ev": "ecdh", "b": &bs[4..k], "out": {"q": ecdh(&bs[4..k])}}));
                    }
                }
                // exactly the parameters
                if bs.len() > 7 && bs.len() >= 8 + bs[7] as usize {
                    let k = 8 + bs[7] as usize;
                    run.push(json!({"ev": "ecdh", "b": &bs[4..k], "out": {"q": ecdh(&bs[4..k])}}));
                    run.push(json!({"ev": "ecdh", "b": &bs[7..k], "out": {"q": ecdh(&bs[7..k])}}));
                }
            }
        }
        if run.len() >= 40 {
            out.run(&run);
            run.clear();
        }
    };
    let mut r = Rng::new(seed);
    for s in read_scenarios(&a[0]) {
        let bs = bytes_of(&s["b"]);
        let v = u(&s, "v") as u16;
        one(bs.clone(), v, &[1, 2, 3]);
        if !queries {
            let k = s["mut"].as_u64().unwrap_or(2);
            for _ in 0..k {
                let mut m = bs.clone();
                Gen(&mut r).mutate(&mut m);
                one(m, v, &[]);
            }
        }
    }
    for _ in 0..n {
        let v = *r.pick(&[771u16, 771, 772, 769, 0]);
        let m = gen_msg(&mut r, v);
        if m.is_empty() {
            continue;
        }
        let k = r.below(6);
        let nb = r.bytes(k);
        one(m, v, &nb);
    }
    if run.is_empty() {
        run.push(hs_event(&[14, 0, 0, 0], 771));
    }
    out.run(&run);
}
