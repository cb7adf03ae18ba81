use crate::{viewed, Map, ParseError, Store, View};
use rangeset::set::RangeSet;
use std::ops::Range;

macro_rules! leaf { ($($t:ident),*) => {$(
    #[derive(Debug, Clone)]
    pub struct $t<S: Store = bytes::Bytes> { pub(crate) view: View<S> }
)*}; }
leaf!(Bool, Null, Number, String, JsonKey);

#[derive(Debug, Clone)]
pub struct Array<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub elems: Vec<JsonValue<S>>,
}
#[derive(Debug, Clone)]
pub struct Object<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub elems: Vec<KeyValue<S>>,
}
#[derive(Debug, Clone)]
pub struct KeyValue<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub key: JsonKey<S>,
    pub value: JsonValue<S>,
}
#[derive(Debug, Clone)]
pub enum JsonValue<S: Store = bytes::Bytes> {
    Null(Null<S>),
    Bool(Bool<S>),
    Number(Number<S>),
    String(String<S>),
    Array(Array<S>),
    Object(Object<S>),
}
viewed!(Bool, Null, Number, String, JsonKey, Array, Object, KeyValue);

impl<S: Store> PartialEq<str> for JsonKey<S> {
    fn eq(&self, o: &str) -> bool {
        self.as_str() == o
    }
}
impl<S: Store> PartialEq<&str> for JsonKey<S> {
    fn eq(&self, o: &&str) -> bool {
        self.as_str() == *o
    }
}

impl<S: Store> Array<S> {
    pub fn without_values(&self) -> View<S> {
        self.view.minus(&self.elems.iter().map(|e| e.view().indices()).collect::<Vec<_>>())
    }
}
impl<S: Store> Object<S> {
    pub fn without_pairs(&self) -> View<S> {
        self.view.minus(&self.elems.iter().map(|e| e.view.indices()).collect::<Vec<_>>())
    }
}
impl<S: Store> KeyValue<S> {
    pub fn without_value(&self) -> View<S> {
        self.view.minus(&[self.value.view().indices()])
    }
}
impl<S: Store> JsonValue<S> {
    pub fn view(&self) -> &View<S> {
        match self {
            JsonValue::Null(x) => &x.view,
            JsonValue::Bool(x) => &x.view,
            JsonValue::Number(x) => &x.view,
            JsonValue::String(x) => &x.view,
            JsonValue::Array(x) => &x.view,
            JsonValue::Object(x) => &x.view,
        }
    }
    pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
        let (head, rest) = match path.split_once('.') {
            Some((h, r)) => (h, Some(r)),
            None => (path, None),
        };
        let v = match self {
            JsonValue::Object(o) => &o.elems.iter().find(|kv| kv.key == head)?.value,
            JsonValue::Array(a) => a.elems.get(head.parse::<usize>().ok()?)?,
            _ => return None,
        };
        match rest {
            Some(r) => v.get(r),
            None => Some(v),
        }
    }
}
impl<S: Store> rangeset::iter::IntoRangeIterator<usize> for &JsonValue<S> {
    fn ranges(self) -> Vec<Range<usize>> {
        rangeset::iter::IntoRangeIterator::ranges(self.view())
    }
}

/// Visits the parts of a value.
pub trait JsonVisit<S: Store = bytes::Bytes> {
    fn visit_value(&mut self, _node: &JsonValue<S>) {}
}

#[derive(Debug, Clone)]
pub struct Document<S: Store = bytes::Bytes> {
    pub root: JsonValue<S>,
}
impl<S: Store> Document<S> {
    pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
        self.root.get(path)
    }
}

pub(crate) fn parse<S: Store>(store: &S, text: &[u8], map: &Map) -> Result<Document<S>, ParseError> {
    let mut p = P { store, t: text, map, at: 0 };
    p.ws();
    let root = p.value(0)?;
    p.ws();
    if p.at != text.len() {
        return Err(ParseError("bytes after the document".into()));
    }
    Ok(Document { root })
}

struct P<'a, S: Store> {
    store: &'a S,
    t: &'a [u8],
    map: &'a Map,
    at: usize,
}
impl<S: Store> P<'_, S> {
    fn err<T>(&self, m: &str) -> Result<T, ParseError> {
        Err(ParseError(format!("{m} at {}", self.at)))
    }
    fn view(&self, r: Range<usize>) -> View<S> {
        let idx: RangeSet<usize> = self.map.range(r);
        View::new(self.store, idx)
    }
    fn peek(&self) -> Option<u8> {
        self.t.get(self.at).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.at += 1;
        }
    }
    fn string(&mut self) -> Result<Range<usize>, ParseError> {
        if self.peek() != Some(b'"') {
            return self.err("expected a string");
        }
        self.at += 1;
        let s = self.at;
        loop {
            match self.peek() {
                Some(b'"') => break,
                Some(b'\\') => self.at += 2,
                Some(c) if c >= 0x20 => self.at += 1,
                _ => return self.err("bad string"),
            }
        }
        let r = s..self.at;
        self.at += 1;
        Ok(r)
    }
    fn value(&mut self, depth: usize) -> Result<JsonValue<S>, ParseError> {
        if depth > 64 {
            return self.err("too deep");
        }
        let s = self.at;
        match self.peek() {
            Some(b'{') => {
                self.at += 1;
                let mut elems = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.at += 1;
                } else {
                    loop {
                        self.ws();
                        let ks = self.at;
                        let k = self.string()?;
                        self.ws();
                        if self.peek() != Some(b':') {
                            return self.err("expected a colon");
                        }
                        self.at += 1;
                        self.ws();
                        let vs = self.at;
                        let value = self.value(depth + 1)?;
                        let _ = vs;
                        elems.push(KeyValue { view: self.view(ks..self.at), key: JsonKey { view: self.view(k) }, value });
                        self.ws();
                        match self.peek() {
                            Some(b',') => self.at += 1,
                            Some(b'}') => {
                                self.at += 1;
                                break;
                            }
                            _ => return self.err("bad object"),
                        }
                    }
                }
                Ok(JsonValue::Object(Object { view: self.view(s..self.at), elems }))
            }
            Some(b'[') => {
                self.at += 1;
                let mut elems = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.at += 1;
                } else {
                    loop {
                        self.ws();
                        elems.push(self.value(depth + 1)?);
                        self.ws();
                        match self.peek() {
                            Some(b',') => self.at += 1,
                            Some(b']') => {
                                self.at += 1;
                                break;
                            }
                            _ => return self.err("bad array"),
                        }
                    }
                }
                Ok(JsonValue::Array(Array { view: self.view(s..self.at), elems }))
            }
            Some(b'"') => {
                let r = self.string()?;
                Ok(JsonValue::String(String { view: self.view(r) }))
            }
            Some(b'-' | b'0'..=b'9') => {
                while matches!(self.peek(), Some(b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')) {
                    self.at += 1;
                }
                Ok(JsonValue::Number(Number { view: self.view(s..self.at) }))
            }
            _ => {
                for (w, k) in [(&b"true"[..], 0), (b"false", 0), (b"null", 1)] {
                    if self.t[self.at..].starts_with(w) {
                        self.at += w.len();
                        let view = self.view(s..self.at);
                        return Ok(if k == 0 { JsonValue::Bool(Bool { view }) } else { JsonValue::Null(Null { view }) });
                    }
                }
                self.err("unexpected byte")
            }
        }
    }
}
