//! Stand-in for `semver`: versions, compared as a whole.
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Version {
    pub major: u64,
    pub minor: u64,
    pub patch: u64,
    pub pre: String,
    pub build: String,
}
#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "not a version")
    }
}
impl std::error::Error for Error {}
impl Version {
    pub fn parse(s: &str) -> Result<Self, Error> {
        let (s, build) = s.split_once('+').unwrap_or((s, ""));
        let (s, pre) = s.split_once('-').unwrap_or((s, ""));
        let n: Result<Vec<u64>, _> = s.split('.').map(|x| x.parse()).collect();
        match n.as_deref() {
            Ok(&[major, minor, patch]) => Ok(Version { major, minor, patch, pre: pre.into(), build: build.into() }),
            _ => Err(Error),
        }
    }
}
impl fmt::Display for Version {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
        if !self.pre.is_empty() {
            write!(f, "-{}", self.pre)?;
        }
        if !self.build.is_empty() {
            write!(f, "+{}", self.build)?;
        }
        Ok(())
    }
}
impl Serialize for Version {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}
impl<'de> Deserialize<'de> for Version {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Version::parse(&String::deserialize(d)?).map_err(D::Error::custom)
    }
}
