//! Stand-in for reqwest: requests are recorded and answered by a harness-provided handler
//! (an arbitrary status code or a transport error).
pub mod header {
    #[derive(Clone, Debug)]
    pub struct HeaderValue(pub String);
    impl std::str::FromStr for HeaderValue {
        type Err = ();
        fn from_str(s: &str) -> Result<Self, ()> { Ok(HeaderValue(s.to_string())) }
    }
    pub const AUTHORIZATION: &str = "authorization";
    #[derive(Clone, Debug, Default)]
    pub struct HeaderMap { pub items: Vec<(String, String)> }
    impl HeaderMap {
        pub fn new() -> Self { HeaderMap { items: Vec::new() } }
        pub fn insert(&mut self, k: &str, v: HeaderValue) { self.items.push((k.to_string(), v.0)); }
    }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("transport") }
}
impl std::error::Error for Error {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(pub u16);
impl StatusCode {
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_informational(&self) -> bool { 200 > self.0 && self.0 >= 100 }
    pub fn is_success(&self) -> bool { 300 > self.0 && self.0 >= 200 }
    pub fn is_redirection(&self) -> bool { 400 > self.0 && self.0 >= 300 }
    pub fn is_client_error(&self) -> bool { 500 > self.0 && self.0 >= 400 }
    pub fn is_server_error(&self) -> bool { 600 > self.0 && self.0 >= 500 }
}
#[derive(Clone, Debug)]
pub struct Recorded {
    pub method: &'static str,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
    pub timeout: Option<std::time::Duration>,
}
/// None = transport error, Some(code) = HTTP status.
pub static mut HANDLER: Option<fn(&Recorded) -> Option<u16>> = None;
#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client { pub fn new() -> Self { Client } }
pub mod blocking {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct Client;
    pub struct RequestBuilder(Recorded);
    pub struct Response(u16);
    impl Response { pub fn status(&self) -> StatusCode { StatusCode(self.0) } }
    impl Client {
        pub fn new() -> Self { Client }
        fn req(&self, m: &'static str, u: &str) -> RequestBuilder {
            RequestBuilder(Recorded { method: m, url: u.to_string(), headers: vec![], body: String::new(), timeout: None })
        }
        pub fn get<U: AsRef<str>>(&self, u: U) -> RequestBuilder { self.req("GET", u.as_ref()) }
        pub fn post<U: AsRef<str>>(&self, u: U) -> RequestBuilder { self.req("POST", u.as_ref()) }
        pub fn put<U: AsRef<str>>(&self, u: U) -> RequestBuilder { self.req("PUT", u.as_ref()) }
        pub fn delete<U: AsRef<str>>(&self, u: U) -> RequestBuilder { self.req("DELETE", u.as_ref()) }
        pub fn patch<U: AsRef<str>>(&self, u: U) -> RequestBuilder { self.req("PATCH", u.as_ref()) }
    }
    impl RequestBuilder {
        pub fn timeout(mut self, t: std::time::Duration) -> Self { self.0.timeout = Some(t); self }
        pub fn header<K: AsRef<str>, V: AsRef<str>>(mut self, k: K, v: V) -> Self {
            self.0.headers.push((k.as_ref().to_string(), v.as_ref().to_string())); self
        }
        pub fn headers(mut self, h: header::HeaderMap) -> Self { self.0.headers.extend(h.items); self }
        pub fn body<B: Into<String>>(mut self, b: B) -> Self { self.0.body = b.into(); self }
        pub fn send(self) -> Result<Response, Error> {
            let h = unsafe { HANDLER };
            match h.and_then(|f| f(&self.0)) { Some(c) => Ok(Response(c)), None => Err(Error) }
        }
    }
}
