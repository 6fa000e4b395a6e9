//! Offline stand-in for `rust_decimal`: a 96-bit mantissa with a scale of at
//! most 28, with the construction, rounding, comparison, arithmetic and serde
//! (`serde-with-float`) behaviour that optiprism relies on.

use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub};
use std::str::FromStr;

pub use num_traits::{FromPrimitive, ToPrimitive};

pub mod prelude {
    pub use super::{Decimal, Error};
    pub use num_traits::{FromPrimitive, One, Signed, ToPrimitive, Zero};
    pub use std::str::FromStr;
}

const MAX_MANTISSA: u128 = (1 << 96) - 1;
const MAX_SCALE: u32 = 28;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    ErrorString(String),
    ExceedsMaximumPossibleValue,
    LessThanMinimumPossibleValue,
    Underflow,
    ScaleExceedsMaximumPrecision(u32),
    ConversionTo(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::ErrorString(s) => f.write_str(s),
            Error::ExceedsMaximumPossibleValue => f.write_str("Number exceeds maximum value that can be represented."),
            Error::LessThanMinimumPossibleValue => f.write_str("Number less than minimum value that can be represented."),
            Error::Underflow => f.write_str("Number has a high precision that can not be represented."),
            Error::ScaleExceedsMaximumPrecision(s) => write!(f, "Scale exceeds the maximum precision allowed: {s} > 28"),
            Error::ConversionTo(s) => write!(f, "Error while converting to {s}"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy)]
pub struct Decimal {
    m: i128,
    s: u32,
}

fn pow10(n: u32) -> i128 {
    10i128.pow(n)
}
fn div_round(a: i128, b: i128) -> i128 {
    let (q, r) = (a / b, a % b);
    if 2 * r.unsigned_abs() >= b.unsigned_abs() {
        q + if (a < 0) == (b < 0) { 1 } else { -1 }
    } else {
        q
    }
}

impl Decimal {
    pub const ZERO: Decimal = Decimal { m: 0, s: 0 };
    pub const ONE: Decimal = Decimal { m: 1, s: 0 };
    pub const MAX_SCALE: u32 = MAX_SCALE;
    pub fn new(m: i64, s: u32) -> Self {
        Self::try_from_i128_with_scale(m as i128, s).unwrap()
    }
    pub fn from_i128_with_scale(m: i128, s: u32) -> Self {
        Self::try_from_i128_with_scale(m, s).unwrap()
    }
    pub fn try_from_i128_with_scale(m: i128, s: u32) -> Result<Self, Error> {
        if s > MAX_SCALE {
            return Err(Error::ScaleExceedsMaximumPrecision(s));
        }
        if m.unsigned_abs() > MAX_MANTISSA {
            return Err(if m > 0 { Error::ExceedsMaximumPossibleValue } else { Error::LessThanMinimumPossibleValue });
        }
        Ok(Decimal { m, s })
    }
    pub fn mantissa(&self) -> i128 {
        self.m
    }
    pub fn scale(&self) -> u32 {
        self.s
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0
    }
    pub fn is_sign_negative(&self) -> bool {
        self.m < 0
    }
    pub fn abs(&self) -> Self {
        Decimal { m: self.m.abs(), s: self.s }
    }
    pub fn is_integer(&self) -> bool {
        *self == self.trunc()
    }
    pub fn trunc(&self) -> Self {
        Decimal { m: self.m / pow10(self.s), s: 0 }
    }
    pub fn round(&self) -> Self {
        // banker's rounding
        let p = pow10(self.s);
        let (q, r) = (self.m / p, self.m % p);
        let t = (2 * r.unsigned_abs()).cmp(&(p as u128));
        let up = t == Ordering::Greater || (t == Ordering::Equal && q % 2 != 0);
        Decimal { m: if up { q + if self.m < 0 { -1 } else { 1 } } else { q }, s: 0 }
    }
    pub fn round_dp(&self, dp: u32) -> Self {
        if self.s <= dp {
            return *self;
        }
        let p = pow10(self.s - dp);
        let (q, r) = (self.m / p, self.m % p);
        let t = (2 * r.unsigned_abs()).cmp(&(p as u128));
        let up = t == Ordering::Greater || (t == Ordering::Equal && q % 2 != 0);
        Decimal { m: if up { q + if self.m < 0 { -1 } else { 1 } } else { q }, s: dp }
    }
    /// Changes the scale; a smaller one rounds half away from zero, a larger one
    /// goes as far as the mantissa allows.
    pub fn rescale(&mut self, s: u32) {
        if self.m == 0 {
            self.s = s.min(MAX_SCALE);
            return;
        }
        while self.s < s.min(MAX_SCALE) {
            let n = self.m * 10;
            if n.unsigned_abs() > MAX_MANTISSA {
                return;
            }
            self.m = n;
            self.s += 1;
        }
        if self.s > s {
            self.m = div_round(self.m, pow10(self.s - s));
            self.s = s;
        }
    }
    pub fn normalize(&self) -> Self {
        let mut d = *self;
        if d.m == 0 {
            return Decimal::ZERO;
        }
        while d.s > 0 && d.m % 10 == 0 {
            d.m /= 10;
            d.s -= 1;
        }
        d
    }
    fn fit(mut m: i128, mut s: u32) -> Option<Self> {
        while s > MAX_SCALE || (m.unsigned_abs() > MAX_MANTISSA && s > 0) {
            m = div_round(m, 10);
            s -= 1;
        }
        (m.unsigned_abs() <= MAX_MANTISSA).then_some(Decimal { m, s })
    }
    fn parse(v: &str, exact: bool) -> Result<Self, Error> {
        let e = |s: &str| Error::ErrorString(format!("Invalid decimal: {s}"));
        let (neg, d) = match v.as_bytes().first() {
            None => return Err(e("empty")),
            Some(b'-') => (true, &v[1..]),
            Some(b'+') => (false, &v[1..]),
            _ => (false, v),
        };
        let (mut m, mut s, mut point, mut any, mut cut) = (0i128, 0u32, false, false, false);
        for c in d.chars() {
            match c {
                '.' if !point => point = true,
                '_' if any => {}
                '0'..='9' => {
                    any = true;
                    let x = c as i128 - '0' as i128;
                    if cut {
                        continue;
                    }
                    let n = m * 10 + x;
                    if n.unsigned_abs() > MAX_MANTISSA || (point && s == MAX_SCALE) {
                        if exact && point {
                            return Err(Error::Underflow);
                        }
                        if !point {
                            return Err(e("overflow from too many digits"));
                        }
                        if x >= 5 && (m + 1).unsigned_abs() <= MAX_MANTISSA {
                            m += 1;
                        }
                        cut = true;
                        continue;
                    }
                    m = n;
                    if point {
                        s += 1;
                    }
                }
                _ => return Err(e("unknown character")),
            }
        }
        if !any {
            return Err(e("no digits found"));
        }
        Ok(Decimal { m: if neg { -m } else { m }, s })
    }
    pub fn from_str_exact(v: &str) -> Result<Self, Error> {
        Self::parse(v, true)
    }
    pub fn from_scientific(v: &str) -> Result<Self, Error> {
        let (b, x) = v.split_once(['e', 'E']).ok_or_else(|| Error::ErrorString("no exponent".into()))?;
        let mut d = Self::parse(b, false)?;
        let x: i32 = x.parse().map_err(|_| Error::ErrorString("exponent".into()))?;
        if x >= 0 {
            for _ in 0..x {
                if d.s > 0 {
                    d.s -= 1
                } else {
                    d.m = d.m.checked_mul(10).filter(|m| m.unsigned_abs() <= MAX_MANTISSA).ok_or(Error::ExceedsMaximumPossibleValue)?
                }
            }
            Ok(d)
        } else {
            let s = d.s as i64 - x as i64;
            if s > 60 {
                return Ok(Decimal { m: 0, s: 0 });
            }
            Self::fit(d.m, s as u32).ok_or(Error::Underflow)
        }
    }
    pub fn from_f64_retain(v: f64) -> Option<Self> {
        Self::float(v, 28)
    }
    fn float(v: f64, digits: usize) -> Option<Self> {
        if !v.is_finite() {
            return None;
        }
        Self::from_scientific(&format!("{:.*e}", digits - 1, v)).ok().map(|d| d.normalize())
    }
    fn align(a: Self, b: Self) -> (i128, i128, u32) {
        // the mantissas fit 96 bits; scaling up by 10^28 may not fit i128, so
        // fall back on dropping digits of the finer one
        let s = a.s.max(b.s);
        match (a.m.checked_mul(pow10(s - a.s)), b.m.checked_mul(pow10(s - b.s))) {
            (Some(x), Some(y)) => (x, y, s),
            _ => {
                let s = a.s.min(b.s);
                (div_round(a.m, pow10(a.s - s)), div_round(b.m, pow10(b.s - s)), s)
            }
        }
    }
}

impl Default for Decimal {
    fn default() -> Self {
        Decimal::ZERO
    }
}
impl PartialEq for Decimal {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (self.normalize(), o.normalize());
        a.m == b.m && a.s == b.s
    }
}
impl Eq for Decimal {}
impl Hash for Decimal {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let n = self.normalize();
        n.m.hash(h);
        n.s.hash(h)
    }
}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Decimal {
    fn cmp(&self, o: &Self) -> Ordering {
        if self == o {
            return Ordering::Equal;
        }
        let (a, b, _) = Decimal::align(*self, *o);
        a.cmp(&b)
    }
}
impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let a = self.m.unsigned_abs().to_string();
        let s = self.s as usize;
        let body = if s == 0 {
            a
        } else {
            let a = format!("{a:0>w$}", w = s + 1);
            format!("{}.{}", &a[..a.len() - s], &a[a.len() - s..])
        };
        f.pad_integral(self.m >= 0, "", &body)
    }
}
impl fmt::Debug for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl FromStr for Decimal {
    type Err = Error;
    fn from_str(v: &str) -> Result<Self, Error> {
        Self::parse(v, false)
    }
}
impl TryFrom<f64> for Decimal {
    type Error = Error;
    fn try_from(v: f64) -> Result<Self, Error> {
        Self::from_f64(v).ok_or_else(|| Error::ConversionTo("Decimal".into()))
    }
}
macro_rules! from_int {
    ($($t:ty)*) => {$(impl From<$t> for Decimal {
        fn from(v: $t) -> Self {
            Decimal { m: v as i128, s: 0 }
        }
    })*};
}
from_int!(i8 i16 i32 i64 u8 u16 u32 u64 usize isize);

impl ToPrimitive for Decimal {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.trunc().m).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.trunc().m).ok()
    }
    fn to_i128(&self) -> Option<i128> {
        Some(self.trunc().m)
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
impl FromPrimitive for Decimal {
    fn from_i64(v: i64) -> Option<Self> {
        Some(v.into())
    }
    fn from_u64(v: u64) -> Option<Self> {
        Some(v.into())
    }
    fn from_f64(v: f64) -> Option<Self> {
        Self::float(v, 15)
    }
}
impl Add for Decimal {
    type Output = Decimal;
    fn add(self, o: Decimal) -> Decimal {
        let (a, b, s) = Decimal::align(self, o);
        Decimal::fit(a + b, s).expect("Addition overflowed")
    }
}
impl Sub for Decimal {
    type Output = Decimal;
    fn sub(self, o: Decimal) -> Decimal {
        self + (-o)
    }
}
impl Neg for Decimal {
    type Output = Decimal;
    fn neg(self) -> Decimal {
        Decimal { m: -self.m, s: self.s }
    }
}
impl Mul for Decimal {
    type Output = Decimal;
    fn mul(self, o: Decimal) -> Decimal {
        let (mut a, mut b) = (self, o);
        loop {
            if let Some(m) = a.m.checked_mul(b.m) {
                return Decimal::fit(m, a.s + b.s).expect("Multiplication overflowed");
            }
            let d = if a.s >= b.s { &mut a } else { &mut b };
            if d.s == 0 {
                panic!("Multiplication overflowed");
            }
            d.m = div_round(d.m, 10);
            d.s -= 1;
        }
    }
}
impl Div for Decimal {
    type Output = Decimal;
    fn div(self, o: Decimal) -> Decimal {
        if o.m == 0 {
            panic!("Division by zero");
        }
        let (mut m, mut s) = (self.m, self.s as i64 - o.s as i64);
        while s < MAX_SCALE as i64 {
            match m.checked_mul(10) {
                Some(n) => {
                    m = n;
                    s += 1
                }
                None => break,
            }
        }
        let mut m = div_round(m, o.m);
        while s < 0 {
            m *= 10;
            s += 1;
        }
        Decimal::fit(m, s as u32).expect("Division overflowed").normalize()
    }
}
impl AddAssign for Decimal {
    fn add_assign(&mut self, o: Decimal) {
        *self = *self + o
    }
}

impl serde::Serialize for Decimal {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_f64(self.to_f64().unwrap())
    }
}
impl<'de> serde::Deserialize<'de> for Decimal {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Decimal;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a Decimal type representing a fixed-point number")
            }
            fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<Decimal, E> {
                Ok(v.into())
            }
            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Decimal, E> {
                Ok(v.into())
            }
            fn visit_f64<E: serde::de::Error>(self, v: f64) -> Result<Decimal, E> {
                Decimal::from_str(&v.to_string()).map_err(|_| E::invalid_value(serde::de::Unexpected::Float(v), &self))
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Decimal, E> {
                Decimal::from_str(v).or_else(|_| Decimal::from_scientific(v)).map_err(|_| E::invalid_value(serde::de::Unexpected::Str(v), &self))
            }
        }
        d.deserialize_any(V)
    }
}
