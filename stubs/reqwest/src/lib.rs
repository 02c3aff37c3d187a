//! A stand-in for reqwest's blocking client, which is not available offline: requests go, with
//! their whole URL as to an HTTP proxy, to the port of the loopback network that VERIF_HTTP_PORT
//! names. Nothing ever leaves the machine.
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub mod header {
    pub type HeaderName = &'static str;
    pub const ACCEPT: HeaderName = "accept";
    pub const CONTENT_TYPE: HeaderName = "content-type";
    pub const USER_AGENT: HeaderName = "user-agent";
}

pub mod blocking {
    use super::{Error, Result, StatusCode};
    use std::io::{Read, Write};
    use std::net::TcpStream;
    use std::time::Duration;

    fn io<T>(r: std::io::Result<T>) -> Result<T> {
        r.map_err(|e| Error(e.to_string()))
    }

    #[derive(Debug, Clone, Default)]
    pub struct Client;

    impl Client {
        pub fn new() -> Self {
            Client
        }
        fn request(&self, method: &'static str, url: &str) -> RequestBuilder {
            RequestBuilder { method, url: url.to_string(), headers: vec![], body: vec![] }
        }
        pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder {
            self.request("POST", url.as_ref())
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            self.request("GET", url.as_ref())
        }
    }

    #[derive(Debug)]
    pub struct RequestBuilder {
        method: &'static str,
        url: String,
        headers: Vec<(String, String)>,
        body: Vec<u8>,
    }

    impl RequestBuilder {
        pub fn header(mut self, k: impl AsRef<str>, v: impl AsRef<str>) -> Self {
            self.headers.push((k.as_ref().to_string(), v.as_ref().to_string()));
            self
        }
        pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self {
            self.body = b.into();
            self
        }
        pub fn send(self) -> Result<Response> {
            let port: u16 = std::env::var("VERIF_HTTP_PORT").ok().and_then(|p| p.parse().ok()).ok_or(Error("no network".into()))?;
            let mut s = io(TcpStream::connect(("127.0.0.1", port)))?;
            io(s.set_read_timeout(Some(Duration::from_secs(30))))?;
            let mut head = format!("{} {} HTTP/1.1\r\ncontent-length: {}\r\n", self.method, self.url, self.body.len());
            for (k, v) in &self.headers {
                head += &format!("{k}: {v}\r\n");
            }
            head += "\r\n";
            io(s.write_all(head.as_bytes()))?;
            io(s.write_all(&self.body))?;
            let mut b = vec![];
            io(s.read_to_end(&mut b))?;
            let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or(Error("connection closed before message completed".into()))?;
            let head = String::from_utf8_lossy(&b[..end]).to_string();
            let status = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or(Error("invalid HTTP status".into()))?;
            let want = head.to_lowercase().lines().find_map(|l| l.strip_prefix("content-length:").map(|n| n.trim().parse::<usize>().unwrap_or(0)));
            let body = b[end + 4..].to_vec();
            Ok(Response { status: StatusCode(status), complete: want.is_none_or(|n| n == body.len()), body })
        }
    }

    #[derive(Debug)]
    pub struct Response {
        status: StatusCode,
        body: Vec<u8>,
        complete: bool,
    }

    impl Response {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn error_for_status(self) -> Result<Response> {
            if self.status.0 >= 400 {
                return Err(Error(format!("HTTP status {}", self.status)));
            }
            Ok(self)
        }
        pub fn text(self) -> Result<String> {
            if !self.complete {
                return Err(Error("end of file before message length reached".into()));
            }
            Ok(String::from_utf8_lossy(&self.body).to_string())
        }
    }
}
