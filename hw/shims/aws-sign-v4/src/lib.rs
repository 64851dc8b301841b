//! Stand-in for AWS signature computation: the "signature" is the credential pair itself, so a
//! harness can see which pair each request was signed with.
use chrono::{DateTime, Utc};
pub struct AwsSign<'a> { id: &'a str, secret: &'a str }
impl<'a> AwsSign<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn new<B: AsRef<[u8]> + ?Sized>(
        _method: &'a str, _url: &'a str, _datetime: &'a DateTime<Utc>, _headers: &'a reqwest::header::HeaderMap,
        _region: &'a str, access_key: &'a str, secret_key: &'a str, _service: &'a str, _body: &'a B,
    ) -> Self { AwsSign { id: access_key, secret: secret_key } }
    pub fn sign(&'a self) -> String {
        let mut s = String::from(self.id);
        s.push('|');
        s.push_str(self.secret);
        s
    }
}
