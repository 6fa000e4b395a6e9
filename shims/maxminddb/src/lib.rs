//! Stand-in for the geo database: a list of addresses with the country and city they lie in.
use std::collections::BTreeMap;
use std::fmt;
use std::net::IpAddr;
use std::path::Path;
#[derive(Debug)]
pub enum MaxMindDBError {
    AddressNotFoundError(String),
    InvalidDatabaseError(String),
    IoError(String),
}
impl fmt::Display for MaxMindDBError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MaxMindDBError {}
pub struct Place {
    pub ip: IpAddr,
    pub country: Option<BTreeMap<&'static str, &'static str>>,
    pub city: Option<BTreeMap<&'static str, &'static str>>,
}
pub struct Reader<S> {
    places: Vec<Place>,
    _s: std::marker::PhantomData<S>,
}
pub trait Found<'a>: Sized {
    fn found(p: &'a Place) -> Self;
}
impl Reader<Vec<u8>> {
    pub fn of(places: Vec<Place>) -> Self {
        Reader { places, _s: Default::default() }
    }
    /// A text file of lines `address TAB country TAB city`; a name may be missing.
    pub fn open_readfile<P: AsRef<Path>>(p: P) -> Result<Self, MaxMindDBError> {
        let text = std::fs::read_to_string(p).map_err(|e| MaxMindDBError::IoError(e.to_string()))?;
        let name = |s: Option<&str>| {
            s.filter(|s| !s.is_empty()).map(|s| {
                let s: &'static str = Box::leak(s.to_string().into_boxed_str());
                BTreeMap::from([("de", "anders"), ("en", s), ("fr", "autre")])
            })
        };
        let mut places = vec![];
        for l in text.lines() {
            let mut w = l.split('\t');
            let ip = w.next().and_then(|v| v.parse().ok()).ok_or(MaxMindDBError::InvalidDatabaseError(l.to_string()))?;
            places.push(Place { ip, country: name(w.next()), city: name(w.next()) });
        }
        Ok(Self::of(places))
    }
    pub fn lookup<'a, T: Found<'a>>(&'a self, ip: IpAddr) -> Result<T, MaxMindDBError> {
        match self.places.iter().find(|p| p.ip == ip) {
            Some(p) => Ok(T::found(p)),
            None => Err(MaxMindDBError::AddressNotFoundError("Address not found in database".to_string())),
        }
    }
}
pub mod geoip2 {
    use std::collections::BTreeMap;
    pub struct City<'a> {
        pub city: Option<city::City<'a>>,
        pub country: Option<country::Country<'a>>,
    }
    pub mod city {
        use std::collections::BTreeMap;
        pub struct City<'a> {
            pub names: Option<BTreeMap<&'a str, &'a str>>,
        }
    }
    pub mod country {
        use std::collections::BTreeMap;
        pub struct Country<'a> {
            pub names: Option<BTreeMap<&'a str, &'a str>>,
        }
    }
    fn names<'a>(m: &'a Option<BTreeMap<&'static str, &'static str>>) -> Option<BTreeMap<&'a str, &'a str>> {
        m.as_ref().map(|m| m.iter().map(|(k, v)| (*k, *v)).collect())
    }
    impl<'a> super::Found<'a> for City<'a> {
        fn found(p: &'a super::Place) -> Self {
            City {
                city: p.city.as_ref().map(|_| city::City { names: names(&p.city) }),
                country: p.country.as_ref().map(|_| country::Country { names: names(&p.country) }),
            }
        }
    }
}
