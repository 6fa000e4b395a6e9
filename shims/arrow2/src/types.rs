pub use crate::datatypes::PrimitiveType;
use std::fmt::Debug;

/// A native value that can live in a `PrimitiveArray`.
pub trait NativeType:
    Copy + Debug + PartialEq + PartialOrd + Default + Send + Sync + 'static
{
    const PRIMITIVE: PrimitiveType;
    fn to_raw(self) -> [u8; 16];
    fn from_raw(raw: [u8; 16]) -> Self;
}
macro_rules! native {
    ($t:ty, $p:ident) => {
        impl NativeType for $t {
            const PRIMITIVE: PrimitiveType = PrimitiveType::$p;
            fn to_raw(self) -> [u8; 16] {
                let mut r = [0u8; 16];
                let b = self.to_le_bytes();
                r[..b.len()].copy_from_slice(&b);
                r
            }
            fn from_raw(raw: [u8; 16]) -> Self {
                const N: usize = std::mem::size_of::<$t>();
                let mut b = [0u8; N];
                b.copy_from_slice(&raw[..N]);
                <$t>::from_le_bytes(b)
            }
        }
    };
}
native!(i8, Int8);
native!(i16, Int16);
native!(i32, Int32);
native!(i64, Int64);
native!(i128, Int128);
native!(u8, UInt8);
native!(u16, UInt16);
native!(u32, UInt32);
native!(u64, UInt64);
native!(f32, Float32);
native!(f64, Float64);

pub trait Index: NativeType {
    fn to_usize(&self) -> usize;
    fn from_usize(v: usize) -> Self;
}
macro_rules! index {
    ($($t:ty),*) => {$(impl Index for $t {
        fn to_usize(&self) -> usize { *self as usize }
        fn from_usize(v: usize) -> Self { v as $t }
    })*};
}
index!(i32, i64, u32, u64);
