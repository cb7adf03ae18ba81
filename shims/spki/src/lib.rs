//! The part of `spki` 0.8 that is used.
pub use der;
use der::{AnyRef, Decode, DecodeValue, FixedTag, Header, Reader, Tag, asn1::BitStringRef, oid::ObjectIdentifier};
#[derive(Clone, Debug)]
pub struct AlgorithmIdentifierRef<'a> {
    pub oid: ObjectIdentifier,
    pub parameters: Option<AnyRef<'a>>,
}
#[derive(Clone, Debug)]
pub struct SubjectPublicKeyInfoRef<'a> {
    pub algorithm: AlgorithmIdentifierRef<'a>,
    pub subject_public_key: BitStringRef<'a>,
}
#[derive(Clone, Copy, Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("spki error")
    }
}
impl std::error::Error for Error {}
impl<'a> AlgorithmIdentifierRef<'a> {
    pub fn parameters_oid(&self) -> Result<ObjectIdentifier, Error> {
        self.parameters.as_ref().ok_or(Error)?.decode_as().map_err(|_| Error)
    }
}

impl FixedTag for AlgorithmIdentifierRef<'_> {
    const TAG: Tag = Tag::Sequence;
}
impl<'a> DecodeValue<'a> for AlgorithmIdentifierRef<'a> {
    type Error = der::Error;
    fn decode_value<R: Reader<'a>>(r: &mut R, h: Header) -> der::Result<Self> {
        r.read_nested(h.length(), |r| Ok(Self { oid: Decode::decode(r)?, parameters: Option::<AnyRef>::decode(r)? }))
    }
}
impl FixedTag for SubjectPublicKeyInfoRef<'_> {
    const TAG: Tag = Tag::Sequence;
}
impl<'a> DecodeValue<'a> for SubjectPublicKeyInfoRef<'a> {
    type Error = der::Error;
    fn decode_value<R: Reader<'a>>(r: &mut R, h: Header) -> der::Result<Self> {
        r.read_nested(h.length(), |r| Ok(Self { algorithm: Decode::decode(r)?, subject_public_key: Decode::decode(r)? }))
    }
}
