//! Stand-in for the user agent parser. A user agent is written as
//! `family/major.minor os/major.minor.patch.patch_minor device/brand/model`; missing parts are
//! absent.
use std::borrow::Cow;
use std::io::Read;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cannot parse")
    }
}
impl std::error::Error for Error {}
pub struct UserAgent<'a> {
    pub family: Cow<'a, str>,
    pub major: Option<Cow<'a, str>>,
    pub minor: Option<Cow<'a, str>>,
    pub patch: Option<Cow<'a, str>>,
}
pub struct OS<'a> {
    pub family: Cow<'a, str>,
    pub major: Option<Cow<'a, str>>,
    pub minor: Option<Cow<'a, str>>,
    pub patch: Option<Cow<'a, str>>,
    pub patch_minor: Option<Cow<'a, str>>,
}
pub struct Device<'a> {
    pub family: Cow<'a, str>,
    pub brand: Option<Cow<'a, str>>,
    pub model: Option<Cow<'a, str>>,
}
pub struct Client<'a> {
    pub device: Device<'a>,
    pub os: OS<'a>,
    pub user_agent: UserAgent<'a>,
}
pub trait Parser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a>;
}
pub struct UserAgentParser;
impl UserAgentParser {
    pub fn from_file<R: Read>(_: R) -> Result<Self, Error> {
        Ok(UserAgentParser)
    }
    pub fn from_bytes(_: &[u8]) -> Result<Self, Error> {
        Ok(UserAgentParser)
    }
}
fn part(s: &str, i: usize, sep: char) -> Option<&str> {
    s.split(sep).nth(i).filter(|v| !v.is_empty())
}
impl Parser for UserAgentParser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a> {
        let w: Vec<&'a str> = ua.split(' ').collect();
        let at = |i: usize| w.get(i).copied().unwrap_or("");
        let fam = |s: &'a str| Cow::Borrowed(part(s, 0, '/').unwrap_or("Other"));
        let ver = |s: &'a str, i: usize| part(s, 1, '/').and_then(|v| part(v, i, '.')).map(Cow::Borrowed);
        Client {
            device: Device { family: fam(at(2)), brand: part(at(2), 1, '/').map(Cow::Borrowed), model: part(at(2), 2, '/').map(Cow::Borrowed) },
            os: OS { family: fam(at(1)), major: ver(at(1), 0), minor: ver(at(1), 1), patch: ver(at(1), 2), patch_minor: ver(at(1), 3) },
            user_agent: UserAgent { family: fam(at(0)), major: ver(at(0), 0), minor: ver(at(0), 1), patch: ver(at(0), 2) },
        }
    }
}
