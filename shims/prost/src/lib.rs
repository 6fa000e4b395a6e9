//! Offline stand-in for the part of `prost` that optiprism uses: the proto3
//! wire format for the scalar, string, bytes, message, repeated and oneof
//! fields of its own schemas. `pbgen` writes the message structs.

use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(pub String);
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.0)
    }
}
impl std::error::Error for DecodeError {}
impl DecodeError {
    pub fn new(s: impl Into<String>) -> Self {
        DecodeError(s.into())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("failed to encode Protobuf message")
    }
}
impl std::error::Error for EncodeError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct UnknownEnumValue(pub i32);
impl fmt::Display for UnknownEnumValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "unknown enumeration value {}", self.0)
    }
}
impl std::error::Error for UnknownEnumValue {}

pub trait Message: Default + Clone + PartialEq + fmt::Debug {
    fn encode_fields(&self, out: &mut Vec<u8>);
    fn merge_field(&mut self, tag: u32, f: wire::Field<'_>) -> Result<(), DecodeError>;

    fn encode_to_vec(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.encode_fields(&mut v);
        v
    }
    fn encoded_len(&self) -> usize {
        self.encode_to_vec().len()
    }
    fn decode<B: Buf>(buf: B) -> Result<Self, DecodeError> {
        let mut r = wire::Reader(buf.chunk());
        let mut m = Self::default();
        while let Some((tag, f)) = r.next()? {
            m.merge_field(tag, f)?;
        }
        Ok(m)
    }
}

pub mod wire {
    use super::DecodeError;

    pub enum Field<'a> {
        Varint(u64),
        Fixed64(u64),
        Bytes(&'a [u8]),
        Fixed32(u32),
    }

    impl<'a> Field<'a> {
        pub fn varint(&self) -> Result<u64, DecodeError> {
            match self {
                Field::Varint(v) => Ok(*v),
                _ => Err(DecodeError::new("invalid wire type (expected Varint)")),
            }
        }
        pub fn fixed64(&self) -> Result<u64, DecodeError> {
            match self {
                Field::Fixed64(v) => Ok(*v),
                _ => Err(DecodeError::new("invalid wire type (expected SixtyFourBit)")),
            }
        }
        pub fn fixed32(&self) -> Result<u32, DecodeError> {
            match self {
                Field::Fixed32(v) => Ok(*v),
                _ => Err(DecodeError::new("invalid wire type (expected ThirtyTwoBit)")),
            }
        }
        pub fn bytes(&self) -> Result<&'a [u8], DecodeError> {
            match self {
                Field::Bytes(v) => Ok(v),
                _ => Err(DecodeError::new("invalid wire type (expected LengthDelimited)")),
            }
        }
        pub fn string(&self) -> Result<String, DecodeError> {
            String::from_utf8(self.bytes()?.to_vec())
                .map_err(|_| DecodeError::new("invalid string value: data is not UTF-8 encoded"))
        }
    }

    pub struct Reader<'a>(pub &'a [u8]);
    impl<'a> Reader<'a> {
        pub fn varint(&mut self) -> Result<u64, DecodeError> {
            let mut r = 0u64;
            for i in 0..10 {
                let (b, rest) = self.0.split_first().ok_or_else(|| DecodeError::new("invalid varint"))?;
                self.0 = rest;
                r |= ((b & 0x7f) as u64) << (7 * i);
                if b & 0x80 == 0 {
                    return Ok(r);
                }
            }
            Err(DecodeError::new("invalid varint"))
        }
        fn take(&mut self, n: usize) -> Result<&'a [u8], DecodeError> {
            if self.0.len() < n {
                return Err(DecodeError::new("buffer underflow"));
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Ok(a)
        }
        pub fn next(&mut self) -> Result<Option<(u32, Field<'a>)>, DecodeError> {
            if self.0.is_empty() {
                return Ok(None);
            }
            let k = self.varint()?;
            let tag = (k >> 3) as u32;
            if tag == 0 {
                return Err(DecodeError::new("invalid tag value: 0"));
            }
            let f = match k & 7 {
                0 => Field::Varint(self.varint()?),
                1 => Field::Fixed64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
                2 => {
                    let n = self.varint()? as usize;
                    Field::Bytes(self.take(n)?)
                }
                5 => Field::Fixed32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
                w => return Err(DecodeError::new(format!("invalid wire type value: {w}"))),
            };
            Ok(Some((tag, f)))
        }
    }

    pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            out.push(v as u8 | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    pub fn put_key(out: &mut Vec<u8>, tag: u32, w: u32) {
        put_varint(out, ((tag << 3) | w) as u64)
    }
    pub fn put_u64(out: &mut Vec<u8>, tag: u32, v: u64) {
        put_key(out, tag, 0);
        put_varint(out, v)
    }
    pub fn put_fixed64(out: &mut Vec<u8>, tag: u32, v: u64) {
        put_key(out, tag, 1);
        out.extend_from_slice(&v.to_le_bytes())
    }
    pub fn put_fixed32(out: &mut Vec<u8>, tag: u32, v: u32) {
        put_key(out, tag, 5);
        out.extend_from_slice(&v.to_le_bytes())
    }
    pub fn put_bytes(out: &mut Vec<u8>, tag: u32, v: &[u8]) {
        put_key(out, tag, 2);
        put_varint(out, v.len() as u64);
        out.extend_from_slice(v)
    }
}

/// the inputs prost decodes from (bytes::Buf), as far as they are used here
pub trait Buf {
    fn chunk(&self) -> &[u8];
}
impl Buf for &[u8] {
    fn chunk(&self) -> &[u8] {
        self
    }
}
