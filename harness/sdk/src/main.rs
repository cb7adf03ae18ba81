fn main(){ let r = tlsn_sdk_core::compute_reveal(b"GET / HTTP/1.1\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n", &[]); println!("{:?}", r.is_ok()); let _ = tlsn_formats::http::HttpTranscript::parse(&tlsn_core::transcript::Transcript::new([], [])); }
