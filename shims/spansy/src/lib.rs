//! HTTP/1.1 messages and JSON documents whose every part knows the bytes it stands in.
pub mod http;
pub mod json;

use rangeset::set::RangeSet;
use std::{fmt, ops::Range};

#[derive(Debug)]
pub struct ParseError(pub String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "parse error: {}", self.0)
    }
}
impl std::error::Error for ParseError {}

/// What a parsed message keeps of its source.
pub trait Store: Clone {
    fn bytes(&self) -> &[u8];
}
impl Store for bytes::Bytes {
    fn bytes(&self) -> &[u8] {
        self
    }
}
impl Store for &[u8] {
    fn bytes(&self) -> &[u8] {
        self
    }
}

/// A part of a source.
#[derive(Debug, Clone)]
pub struct View<S: Store = bytes::Bytes> {
    store: S,
    idx: RangeSet<usize>,
    text: String,
}

impl<S: Store> View<S> {
    fn new(store: &S, idx: RangeSet<usize>) -> Self {
        let mut b = vec![];
        for r in idx.iter() {
            b.extend_from_slice(&store.bytes()[r]);
        }
        View { store: store.clone(), idx, text: String::from_utf8_lossy(&b).into_owned() }
    }
    pub fn indices(&self) -> &RangeSet<usize> {
        &self.idx
    }
    pub fn is_empty(&self) -> bool {
        self.idx.is_empty()
    }
    pub fn len(&self) -> usize {
        self.idx.len()
    }
    pub fn as_str(&self) -> &str {
        &self.text
    }
    fn minus(&self, parts: &[&RangeSet<usize>]) -> Self {
        let mut i = self.idx.clone();
        for p in parts {
            i.difference_mut(*p);
        }
        View::new(&self.store, i)
    }
}
impl<S: Store> rangeset::iter::IntoRangeIterator<usize> for View<S> {
    fn ranges(self) -> Vec<Range<usize>> {
        self.idx.ranges()
    }
}
impl<S: Store> rangeset::iter::IntoRangeIterator<usize> for &View<S> {
    fn ranges(self) -> Vec<Range<usize>> {
        self.idx.clone().ranges()
    }
}

/// Where the bytes of a (possibly chunked) body stand in the source.
#[derive(Clone, Default)]
pub(crate) struct Map(pub Vec<(usize, Range<usize>)>);
impl Map {
    pub(crate) fn range(&self, r: Range<usize>) -> RangeSet<usize> {
        let mut v = vec![];
        for (at, src) in &self.0 {
            let (a, b) = (r.start.max(*at), r.end.min(at + src.len()));
            if a < b {
                v.push(src.start + a - at..src.start + b - at);
            }
        }
        RangeSet::from(v)
    }
}

macro_rules! viewed {
    ($($t:ident),*) => {$(
        impl<S: crate::Store> $t<S> {
            pub fn view(&self) -> &crate::View<S> { &self.view }
            pub fn indices(&self) -> &rangeset::set::RangeSet<usize> { self.view.indices() }
            pub fn as_str(&self) -> &str { self.view.as_str() }
        }
        impl<S: crate::Store> rangeset::iter::IntoRangeIterator<usize> for &$t<S> {
            fn ranges(self) -> Vec<std::ops::Range<usize>> { rangeset::iter::IntoRangeIterator::ranges(&self.view) }
        }
    )*};
}
pub(crate) use viewed;
