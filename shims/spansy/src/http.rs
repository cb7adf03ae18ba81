use crate::{json, viewed, Map, ParseError, Store, View};
use rangeset::set::RangeSet;
use std::ops::Range;

macro_rules! leaf { ($($t:ident),*) => {$(
    #[derive(Debug, Clone)]
    pub struct $t<S: Store = bytes::Bytes> { pub(crate) view: View<S> }
)*}; }
leaf!(HeaderName, HeaderValue, Method, Target, Code, Reason, Unknown);

#[derive(Debug, Clone)]
pub struct Header<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub name: HeaderName<S>,
    pub value: HeaderValue<S>,
}
#[derive(Debug, Clone)]
pub struct RequestLine<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub method: Method<S>,
    pub target: Target<S>,
}
#[derive(Debug, Clone)]
pub struct Status<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub code: Code<S>,
    pub reason: Reason<S>,
}
#[derive(Debug, Clone)]
pub enum BodyContent<S: Store = bytes::Bytes> {
    Json(json::Document<S>),
    Unknown(Unknown<S>),
}
#[derive(Debug, Clone)]
pub struct Body<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub content: BodyContent<S>,
}
#[derive(Debug, Clone)]
pub struct Request<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub request: RequestLine<S>,
    pub headers: Vec<Header<S>>,
    pub body: Option<Body<S>>,
}
#[derive(Debug, Clone)]
pub struct Response<S: Store = bytes::Bytes> {
    pub(crate) view: View<S>,
    pub status: Status<S>,
    pub headers: Vec<Header<S>>,
    pub body: Option<Body<S>>,
}
viewed!(HeaderName, HeaderValue, Method, Target, Code, Reason, Unknown, Header, RequestLine, Status, Body, Request, Response);

impl<S: Store> Header<S> {
    pub fn without_value(&self) -> View<S> {
        self.view.minus(&[self.value.view.indices()])
    }
}
fn named<'a, S: Store>(h: &'a [Header<S>], name: &'a str) -> impl Iterator<Item = &'a Header<S>> {
    h.iter().filter(move |h| h.name.as_str().eq_ignore_ascii_case(name))
}
impl<S: Store> Request<S> {
    pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> {
        named(&self.headers, name)
    }
    /// Everything but the target, the headers and the body.
    pub fn without_data(&self) -> View<S> {
        let mut v = vec![self.request.target.view.indices()];
        v.extend(self.headers.iter().map(|h| h.view.indices()));
        v.extend(self.body.iter().map(|b| b.view.indices()));
        self.view.minus(&v)
    }
}
impl<S: Store> Response<S> {
    pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> {
        named(&self.headers, name)
    }
    /// Everything but the headers and the body.
    pub fn without_data(&self) -> View<S> {
        let mut v: Vec<&RangeSet<usize>> = self.headers.iter().map(|h| h.view.indices()).collect();
        v.extend(self.body.iter().map(|b| b.view.indices()));
        self.view.minus(&v)
    }
}

fn line(b: &[u8], at: usize) -> Result<Range<usize>, ParseError> {
    b[at..].windows(2).position(|w| w == b"\r\n").map(|n| at..at + n).ok_or_else(|| ParseError("no line end".into()))
}
fn one<S: Store>(s: &S, r: Range<usize>) -> View<S> {
    View::new(s, RangeSet::from(r))
}

struct Rest<S: Store> {
    headers: Vec<Header<S>>,
    body: Option<Body<S>>,
    end: usize,
}
fn rest<S: Store>(s: &S, mut at: usize, to_end: bool) -> Result<Rest<S>, ParseError> {
    let b = s.bytes();
    let mut headers: Vec<Header<S>> = vec![];
    loop {
        let l = line(b, at)?;
        if l.is_empty() {
            at = l.end + 2;
            break;
        }
        let colon = b[l.clone()].iter().position(|c| *c == b':').ok_or_else(|| ParseError("bad header".into()))?;
        let (mut vs, mut ve) = (l.start + colon + 1, l.end);
        while vs < ve && matches!(b[vs], b' ' | b'\t') {
            vs += 1;
        }
        while vs < ve && matches!(b[ve - 1], b' ' | b'\t') {
            ve -= 1;
        }
        headers.push(Header {
            view: one(s, l.start..l.end + 2),
            name: HeaderName { view: one(s, l.start..l.start + colon) },
            value: HeaderValue { view: one(s, vs..ve) },
        });
        at = l.end + 2;
    }
    let get = |n: &str| named(&headers, n).next().map(|h| h.value.as_str().to_ascii_lowercase());
    let (mut map, mut content, mut end) = (Map::default(), vec![], at);
    if get("transfer-encoding").is_some_and(|v| v.contains("chunked")) {
        loop {
            let l = line(b, end)?;
            let n = std::str::from_utf8(&b[l.clone()]).ok().and_then(|t| usize::from_str_radix(t.split(';').next().unwrap().trim(), 16).ok());
            let n = n.ok_or_else(|| ParseError("bad chunk".into()))?;
            let start = l.end + 2;
            let data = b.get(start..start + n).ok_or_else(|| ParseError("short chunk".into()))?;
            if b.get(start + n..start + n + 2) != Some(b"\r\n") {
                return Err(ParseError("bad chunk end".into()));
            }
            end = start + n + 2;
            if n == 0 {
                break;
            }
            map.0.push((content.len(), start..start + n));
            content.extend_from_slice(data);
        }
    } else {
        let n = match get("content-length") {
            Some(v) => v.parse::<usize>().map_err(|_| ParseError("bad content length".into()))?,
            None if to_end => b.len() - at,
            None => 0,
        };
        content = b.get(at..at + n).ok_or_else(|| ParseError("short body".into()))?.to_vec();
        map.0.push((0, at..at + n));
        end = at + n;
    }
    let body = if content.is_empty() {
        None
    } else {
        let view = View::new(s, map.range(0..content.len()));
        let body = if get("content-type").is_some_and(|v| v.contains("application/json")) {
            BodyContent::Json(json::parse(s, &content, &map)?)
        } else {
            BodyContent::Unknown(Unknown { view: view.clone() })
        };
        Some(Body { view, content: body })
    };
    Ok(Rest { headers, body, end })
}

fn request_at<S: Store>(s: &S, at: usize) -> Result<(Request<S>, usize), ParseError> {
    let b = s.bytes();
    let l = line(b, at)?;
    let sp: Vec<usize> = l.clone().filter(|i| b[*i] == b' ').collect();
    if sp.len() < 2 {
        return Err(ParseError("bad request line".into()));
    }
    let (m, t) = (l.start..sp[0], sp[0] + 1..sp[sp.len() - 1]);
    let r = rest(s, l.end + 2, false)?;
    Ok((
        Request {
            view: one(s, at..r.end),
            request: RequestLine { view: one(s, l.start..l.end + 2), method: Method { view: one(s, m) }, target: Target { view: one(s, t) } },
            headers: r.headers,
            body: r.body,
        },
        r.end,
    ))
}
fn response_at<S: Store>(s: &S, at: usize) -> Result<(Response<S>, usize), ParseError> {
    let b = s.bytes();
    let l = line(b, at)?;
    let sp: Vec<usize> = l.clone().filter(|i| b[*i] == b' ').collect();
    if sp.is_empty() {
        return Err(ParseError("bad status line".into()));
    }
    let cs = sp[0] + 1;
    let ce = sp.get(1).copied().unwrap_or(l.end);
    let rs = (ce + 1).min(l.end);
    let r = rest(s, l.end + 2, true)?;
    Ok((
        Response {
            view: one(s, at..r.end),
            status: Status { view: one(s, l.start..l.end + 2), code: Code { view: one(s, cs..ce) }, reason: Reason { view: one(s, rs..l.end) } },
            headers: r.headers,
            body: r.body,
        },
        r.end,
    ))
}

pub fn parse_request<S: Store>(src: S) -> Result<Request<S>, ParseError> {
    request_at(&src, 0).map(|r| r.0)
}
pub fn parse_response<S: Store>(src: S) -> Result<Response<S>, ParseError> {
    response_at(&src, 0).map(|r| r.0)
}

macro_rules! many {
    ($t:ident, $m:ident, $f:ident) => {
        pub struct $t {
            src: bytes::Bytes,
            at: usize,
        }
        impl $t {
            pub fn new(src: bytes::Bytes) -> Self {
                Self { src, at: 0 }
            }
            pub fn new_from_slice(src: &[u8]) -> Self {
                Self::new(bytes::Bytes::copy_from_slice(src))
            }
        }
        impl Iterator for $t {
            type Item = Result<$m, ParseError>;
            fn next(&mut self) -> Option<Self::Item> {
                if self.at >= self.src.len() {
                    return None;
                }
                match $f(&self.src, self.at) {
                    Ok((m, end)) => {
                        self.at = end;
                        Some(Ok(m))
                    }
                    Err(e) => {
                        self.at = self.src.len();
                        Some(Err(e))
                    }
                }
            }
        }
    };
}
many!(Requests, Request, request_at);
many!(Responses, Response, response_at);
