use crate::bitmap::Bitmap;
use crate::datatypes::{DataType, Field, PrimitiveType};
use crate::error::{Error, Result};
use crate::offset::{Offset, OffsetsBuffer};
use crate::types::NativeType;
use std::any::Any;
use std::fmt::Debug;
use std::sync::Arc;

pub trait Array: Send + Sync + Debug + 'static {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn data_type(&self) -> &DataType;
    fn validity(&self) -> Option<&Bitmap>;
    fn null_count(&self) -> usize {
        self.validity().map(|v| v.unset_bits()).unwrap_or(0)
    }
    fn is_null(&self, i: usize) -> bool {
        assert!(i < self.len());
        self.validity().map(|v| !v.get_bit(i)).unwrap_or(false)
    }
    fn is_valid(&self, i: usize) -> bool {
        !self.is_null(i)
    }
    fn slice(&mut self, offset: usize, length: usize);
    fn sliced(&self, offset: usize, length: usize) -> Box<dyn Array> {
        let mut n = self.to_boxed();
        n.slice(offset, length);
        n
    }
    fn to_boxed(&self) -> Box<dyn Array>;
}

impl Clone for Box<dyn Array> {
    fn clone(&self) -> Self {
        self.as_ref().to_boxed()
    }
}
impl PartialEq for dyn Array + '_ {
    fn eq(&self, o: &Self) -> bool {
        self.data_type() == o.data_type()
            && self.len() == o.len()
            && (0..self.len()).all(|i| scalar::get(self, i) == scalar::get(o, i))
    }
}
impl PartialEq<&Self> for Box<dyn Array> {
    fn eq(&self, o: &&Self) -> bool {
        self.as_ref() == o.as_ref()
    }
}

macro_rules! common_impl {
    () => {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn as_any_mut(&mut self) -> &mut dyn Any {
            self
        }
        fn len(&self) -> usize {
            self.len
        }
        fn data_type(&self) -> &DataType {
            &self.data_type
        }
        fn validity(&self) -> Option<&Bitmap> {
            self.validity.as_ref()
        }
        fn slice(&mut self, offset: usize, length: usize) {
            assert!(
                offset + length <= self.len,
                "the offset of the new Buffer cannot exceed the existing length"
            );
            self.off += offset;
            self.len = length;
            self.validity = self.validity.take().map(|v| v.sliced(offset, length));
        }
        fn to_boxed(&self) -> Box<dyn Array> {
            Box::new(self.clone())
        }
    };
}
macro_rules! common_inherent {
    () => {
        pub fn boxed(self) -> Box<dyn Array> {
            Box::new(self)
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
        pub fn validity(&self) -> Option<&Bitmap> {
            self.validity.as_ref()
        }
        pub fn data_type(&self) -> &DataType {
            &self.data_type
        }
        pub fn sliced(self, offset: usize, length: usize) -> Self {
            let mut s = self;
            Array::slice(&mut s, offset, length);
            s
        }
        pub fn slice(&mut self, offset: usize, length: usize) {
            Array::slice(self, offset, length)
        }
    };
}
fn split_opts<T: Default>(v: Vec<Option<T>>) -> (Vec<T>, Option<Bitmap>) {
    let any_null = v.iter().any(|x| x.is_none());
    let bits = if any_null {
        Some(Bitmap::from_vec(v.iter().map(|x| x.is_some()).collect()))
    } else {
        None
    };
    (v.into_iter().map(|x| x.unwrap_or_default()).collect(), bits)
}

// ---------------------------------------------------------------- primitive
#[derive(Clone)]
pub struct PrimitiveArray<T: NativeType> {
    data_type: DataType,
    values: Arc<Vec<T>>,
    off: usize,
    len: usize,
    validity: Option<Bitmap>,
}
pub type Int8Array = PrimitiveArray<i8>;
pub type Int16Array = PrimitiveArray<i16>;
pub type Int32Array = PrimitiveArray<i32>;
pub type Int64Array = PrimitiveArray<i64>;
pub type Int128Array = PrimitiveArray<i128>;
pub type UInt8Array = PrimitiveArray<u8>;
pub type UInt16Array = PrimitiveArray<u16>;
pub type UInt32Array = PrimitiveArray<u32>;
pub type UInt64Array = PrimitiveArray<u64>;
pub type Float32Array = PrimitiveArray<f32>;
pub type Float64Array = PrimitiveArray<f64>;

fn default_type(p: PrimitiveType) -> DataType {
    match p {
        PrimitiveType::Int8 => DataType::Int8,
        PrimitiveType::Int16 => DataType::Int16,
        PrimitiveType::Int32 => DataType::Int32,
        PrimitiveType::Int64 => DataType::Int64,
        PrimitiveType::Int128 => DataType::Decimal(32, 32),
        PrimitiveType::UInt8 => DataType::UInt8,
        PrimitiveType::UInt16 => DataType::UInt16,
        PrimitiveType::UInt32 => DataType::UInt32,
        PrimitiveType::UInt64 => DataType::UInt64,
        PrimitiveType::Float32 => DataType::Float32,
        PrimitiveType::Float64 => DataType::Float64,
        p => unimplemented!("{p:?}"),
    }
}
impl<T: NativeType> Array for PrimitiveArray<T> {
    common_impl!();
}
impl<T: NativeType> PrimitiveArray<T> {
    common_inherent!();
    pub fn try_new(data_type: DataType, values: Vec<T>, validity: Option<Bitmap>) -> Result<Self> {
        if data_type.to_physical_type() != crate::datatypes::PhysicalType::Primitive(T::PRIMITIVE) {
            return Err(Error::oos("BooleanArray can only be initialized with a DataType whose physical type is Primitive"));
        }
        let len = values.len();
        Ok(Self { data_type, values: Arc::new(values), off: 0, len, validity })
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        Self::try_new(default_type(T::PRIMITIVE), v, None).unwrap()
    }
    pub fn from_slice<P: AsRef<[T]>>(v: P) -> Self {
        Self::from_vec(v.as_ref().to_vec())
    }
    pub fn to(self, data_type: DataType) -> Self {
        if data_type.to_physical_type() != crate::datatypes::PhysicalType::Primitive(T::PRIMITIVE) {
            panic!("Type {data_type:?} does not support logical type {:?}", T::PRIMITIVE);
        }
        Self { data_type, ..self }
    }
    pub fn value(&self, i: usize) -> T {
        self.values()[i]
    }
    pub fn get(&self, i: usize) -> Option<T> {
        if self.is_null(i) { None } else { Some(self.value(i)) }
    }
    pub fn values(&self) -> &[T] {
        &self.values[self.off..self.off + self.len]
    }
    pub fn values_iter(&self) -> std::slice::Iter<'_, T> {
        self.values().iter()
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<T>> + '_ {
        (0..self.len).map(|i| self.get(i))
    }
}
impl<T: NativeType> Debug for PrimitiveArray<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.data_type)?;
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<T: NativeType> PartialEq for PrimitiveArray<T> {
    fn eq(&self, o: &Self) -> bool {
        (self as &dyn Array) == (o as &dyn Array)
    }
}
impl<T: NativeType, P: AsRef<[Option<T>]>> From<P> for PrimitiveArray<T> {
    fn from(v: P) -> Self {
        let (v, b) = split_opts(v.as_ref().to_vec());
        Self::try_new(default_type(T::PRIMITIVE), v, b).unwrap()
    }
}
impl<T: NativeType> IntoIterator for PrimitiveArray<T> {
    type Item = Option<T>;
    type IntoIter = std::vec::IntoIter<Option<T>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}

// ---------------------------------------------------------------- boolean
#[derive(Clone)]
pub struct BooleanArray {
    data_type: DataType,
    values: Arc<Vec<bool>>,
    off: usize,
    len: usize,
    validity: Option<Bitmap>,
}
impl Array for BooleanArray {
    common_impl!();
}
impl BooleanArray {
    common_inherent!();
    pub fn value(&self, i: usize) -> bool {
        assert!(i < self.len);
        self.values[self.off + i]
    }
    pub fn get(&self, i: usize) -> Option<bool> {
        if self.is_null(i) { None } else { Some(self.value(i)) }
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<bool>> + '_ {
        (0..self.len).map(|i| self.get(i))
    }
}
impl Debug for BooleanArray {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "BooleanArray")?;
        f.debug_list().entries(self.iter()).finish()
    }
}
impl PartialEq for BooleanArray {
    fn eq(&self, o: &Self) -> bool {
        (self as &dyn Array) == (o as &dyn Array)
    }
}
impl<P: AsRef<[Option<bool>]>> From<P> for BooleanArray {
    fn from(v: P) -> Self {
        let (v, validity) = split_opts(v.as_ref().to_vec());
        let len = v.len();
        Self { data_type: DataType::Boolean, values: Arc::new(v), off: 0, len, validity }
    }
}
impl IntoIterator for BooleanArray {
    type Item = Option<bool>;
    type IntoIter = std::vec::IntoIter<Option<bool>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}

// ---------------------------------------------------------------- utf8 / binary
macro_rules! bytes_array {
    ($name:ident, $own:ty, $borrow:ty, $small:ident, $large:ident) => {
        #[derive(Clone)]
        pub struct $name<O: Offset> {
            data_type: DataType,
            values: Arc<Vec<$own>>,
            off: usize,
            len: usize,
            validity: Option<Bitmap>,
            _p: std::marker::PhantomData<O>,
        }
        impl<O: Offset> Array for $name<O> {
            common_impl!();
        }
        impl<O: Offset> $name<O> {
            common_inherent!();
            pub fn default_data_type() -> DataType {
                if O::IS_LARGE { DataType::$large } else { DataType::$small }
            }
            pub fn value(&self, i: usize) -> &$borrow {
                assert!(i < self.len);
                &self.values[self.off + i]
            }
            pub fn get(&self, i: usize) -> Option<&$borrow> {
                if self.is_null(i) { None } else { Some(self.value(i)) }
            }
            pub fn iter(&self) -> impl Iterator<Item = Option<&$borrow>> + '_ {
                (0..self.len).map(|i| self.get(i))
            }
            pub(crate) fn from_opts(v: Vec<Option<$own>>) -> Self {
                let (v, validity) = split_opts(v);
                let len = v.len();
                Self {
                    data_type: Self::default_data_type(),
                    values: Arc::new(v),
                    off: 0,
                    len,
                    validity,
                    _p: Default::default(),
                }
            }
        }
        impl<O: Offset> Debug for $name<O> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, stringify!($name))?;
                f.debug_list().entries(self.iter()).finish()
            }
        }
        impl<O: Offset> PartialEq for $name<O> {
            fn eq(&self, o: &Self) -> bool {
                (self as &dyn Array) == (o as &dyn Array)
            }
        }
        impl<'a, O: Offset> IntoIterator for &'a $name<O> {
            type Item = Option<&'a $borrow>;
            type IntoIter = std::vec::IntoIter<Option<&'a $borrow>>;
            fn into_iter(self) -> Self::IntoIter {
                (0..self.len).map(|i| self.get(i)).collect::<Vec<_>>().into_iter()
            }
        }
    };
}
bytes_array!(Utf8Array, String, str, Utf8, LargeUtf8);
bytes_array!(BinaryArray, Vec<u8>, [u8], Binary, LargeBinary);
impl<O: Offset, T: AsRef<str>> From<Vec<Option<T>>> for Utf8Array<O> {
    fn from(v: Vec<Option<T>>) -> Self {
        Self::from_opts(v.iter().map(|x| x.as_ref().map(|x| x.as_ref().to_string())).collect())
    }
}
impl<O: Offset, T: AsRef<[u8]>> From<Vec<Option<T>>> for BinaryArray<O> {
    fn from(v: Vec<Option<T>>) -> Self {
        Self::from_opts(v.iter().map(|x| x.as_ref().map(|x| x.as_ref().to_vec())).collect())
    }
}

// ---------------------------------------------------------------- fixed size binary
#[derive(Clone)]
pub struct FixedSizeBinaryArray {
    data_type: DataType,
    values: Arc<Vec<Vec<u8>>>,
    off: usize,
    len: usize,
    validity: Option<Bitmap>,
}
impl Array for FixedSizeBinaryArray {
    common_impl!();
}
impl FixedSizeBinaryArray {
    common_inherent!();
    pub fn from_iter<P: AsRef<[u8]>, I: IntoIterator<Item = Option<P>>>(iter: I, size: usize) -> Self {
        let v = iter
            .into_iter()
            .map(|x| {
                x.map(|x| {
                    assert_eq!(x.as_ref().len(), size);
                    x.as_ref().to_vec()
                })
            })
            .collect::<Vec<_>>();
        let validity = if v.iter().any(|x| x.is_none()) {
            Some(Bitmap::from_vec(v.iter().map(|x| x.is_some()).collect()))
        } else {
            None
        };
        let len = v.len();
        Self {
            data_type: DataType::FixedSizeBinary(size),
            values: Arc::new(v.into_iter().map(|x| x.unwrap_or_else(|| vec![0; size])).collect()),
            off: 0,
            len,
            validity,
        }
    }
    pub fn value(&self, i: usize) -> &[u8] {
        assert!(i < self.len);
        &self.values[self.off + i]
    }
}
impl Debug for FixedSizeBinaryArray {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries((0..self.len).map(|i| self.value(i))).finish()
    }
}

// ---------------------------------------------------------------- list
#[derive(Clone)]
pub struct ListArray<O: Offset> {
    data_type: DataType,
    offsets: OffsetsBuffer<O>,
    values: Box<dyn Array>,
    off: usize,
    len: usize,
    validity: Option<Bitmap>,
}
impl<O: Offset> Array for ListArray<O> {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.len
    }
    fn data_type(&self) -> &DataType {
        &self.data_type
    }
    fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    fn slice(&mut self, offset: usize, length: usize) {
        assert!(offset + length <= self.len);
        self.offsets = OffsetsBuffer(Arc::new(self.offsets.0[offset..offset + length + 1].to_vec()));
        self.len = length;
        self.validity = self.validity.take().map(|v| v.sliced(offset, length));
    }
    fn to_boxed(&self) -> Box<dyn Array> {
        Box::new(self.clone())
    }
}
impl<O: Offset> ListArray<O> {
    common_inherent!();
    pub fn new(data_type: DataType, offsets: Vec<O>, values: Box<dyn Array>, validity: Option<Bitmap>) -> Self {
        let inner = list_inner(&data_type);
        assert_eq!(&inner.data_type, values.data_type(), "ListArray's child's DataType must match");
        let len = offsets.len() - 1;
        Self { data_type, offsets: OffsetsBuffer(Arc::new(offsets)), values, off: 0, len, validity }
    }
    pub fn values(&self) -> &Box<dyn Array> {
        &self.values
    }
    pub fn offsets(&self) -> &OffsetsBuffer<O> {
        &self.offsets
    }
    pub fn value(&self, i: usize) -> Box<dyn Array> {
        let (s, e) = self.offsets.start_end(i);
        self.values.sliced(s, e - s)
    }
}
impl<O: Offset> Debug for ListArray<O> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ListArray")?;
        f.debug_list().entries((0..self.len).map(|i| scalar::get(self, i))).finish()
    }
}
impl<O: Offset> PartialEq for ListArray<O> {
    fn eq(&self, o: &Self) -> bool {
        (self as &dyn Array) == (o as &dyn Array)
    }
}
pub(crate) fn list_inner(dt: &DataType) -> &Field {
    match dt {
        DataType::List(f) | DataType::LargeList(f) => f,
        o => panic!("ListArray expects DataType::List, got {o:?}"),
    }
}

// ---------------------------------------------------------------- scalars (internal)
pub mod scalar {
    use super::*;
    use crate::datatypes::PhysicalType;
    use serde::{Deserialize, Serialize};
    use std::cmp::Ordering;

    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub enum Scalar {
        Null,
        Bool(bool),
        Prim([u8; 16]),
        Bytes(Vec<u8>),
        List(Vec<Scalar>),
    }
    impl Scalar {
        pub fn is_null(&self) -> bool {
            matches!(self, Scalar::Null)
        }
        pub fn byte_size(&self) -> usize {
            match self {
                Scalar::Null | Scalar::Bool(_) => 1,
                Scalar::Prim(_) => 8,
                Scalar::Bytes(b) => b.len() + 4,
                Scalar::List(l) => l.iter().map(|s| s.byte_size()).sum::<usize>() + 4,
            }
        }
    }
    macro_rules! with_prim {
        ($p:expr, $t:ident, $e:expr) => {
            match $p {
                PrimitiveType::Int8 => { type $t = i8; $e }
                PrimitiveType::Int16 => { type $t = i16; $e }
                PrimitiveType::Int32 => { type $t = i32; $e }
                PrimitiveType::Int64 => { type $t = i64; $e }
                PrimitiveType::Int128 => { type $t = i128; $e }
                PrimitiveType::UInt8 => { type $t = u8; $e }
                PrimitiveType::UInt16 => { type $t = u16; $e }
                PrimitiveType::UInt32 => { type $t = u32; $e }
                PrimitiveType::UInt64 => { type $t = u64; $e }
                PrimitiveType::Float32 => { type $t = f32; $e }
                PrimitiveType::Float64 => { type $t = f64; $e }
                p => unimplemented!("{p:?}"),
            }
        };
    }
    pub(crate) use with_prim;
    pub fn get(a: &(dyn Array + '_), i: usize) -> Scalar {
        if a.is_null(i) {
            return Scalar::Null;
        }
        match a.data_type().to_physical_type() {
            PhysicalType::Boolean => Scalar::Bool(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i)),
            PhysicalType::Primitive(p) => {
                with_prim!(p, T, Scalar::Prim(a.as_any().downcast_ref::<PrimitiveArray<T>>().unwrap().value(i).to_raw()))
            }
            PhysicalType::Utf8 => Scalar::Bytes(a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().value(i).as_bytes().to_vec()),
            PhysicalType::LargeUtf8 => Scalar::Bytes(a.as_any().downcast_ref::<Utf8Array<i64>>().unwrap().value(i).as_bytes().to_vec()),
            PhysicalType::Binary => Scalar::Bytes(a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap().value(i).to_vec()),
            PhysicalType::LargeBinary => Scalar::Bytes(a.as_any().downcast_ref::<BinaryArray<i64>>().unwrap().value(i).to_vec()),
            PhysicalType::FixedSizeBinary => Scalar::Bytes(a.as_any().downcast_ref::<FixedSizeBinaryArray>().unwrap().value(i).to_vec()),
            PhysicalType::List => {
                let l = a.as_any().downcast_ref::<ListArray<i32>>().unwrap();
                let (s, e) = l.offsets().start_end(i);
                Scalar::List((s..e).map(|j| get(l.values().as_ref(), j)).collect())
            }
            PhysicalType::LargeList => {
                let l = a.as_any().downcast_ref::<ListArray<i64>>().unwrap();
                let (s, e) = l.offsets().start_end(i);
                Scalar::List((s..e).map(|j| get(l.values().as_ref(), j)).collect())
            }
            p => unimplemented!("{p:?}"),
        }
    }
    pub fn cmp(dt: &DataType, a: &Scalar, b: &Scalar) -> Ordering {
        match (a, b) {
            (Scalar::Prim(x), Scalar::Prim(y)) => match dt.to_physical_type() {
                PhysicalType::Primitive(p) => {
                    with_prim!(p, T, T::from_raw(*x).partial_cmp(&T::from_raw(*y)).unwrap_or(Ordering::Equal))
                }
                p => unimplemented!("{p:?}"),
            },
            (Scalar::Bool(x), Scalar::Bool(y)) => x.cmp(y),
            (Scalar::Bytes(x), Scalar::Bytes(y)) => x.cmp(y),
            p => unimplemented!("{p:?}"),
        }
    }
    pub fn build(dt: &DataType, v: Vec<Scalar>) -> Box<dyn Array> {
        match dt.to_physical_type() {
            PhysicalType::Boolean => BooleanArray::from(
                v.into_iter().map(|s| match s { Scalar::Null => None, Scalar::Bool(b) => Some(b), s => panic!("{s:?}") }).collect::<Vec<_>>(),
            )
            .boxed(),
            PhysicalType::Primitive(p) => with_prim!(p, T, {
                PrimitiveArray::<T>::from(
                    v.into_iter().map(|s| match s { Scalar::Null => None, Scalar::Prim(b) => Some(T::from_raw(b)), s => panic!("{s:?}") }).collect::<Vec<_>>(),
                )
                .to(dt.clone())
                .boxed()
            }),
            PhysicalType::Utf8 | PhysicalType::LargeUtf8 => {
                let v = v.into_iter().map(|s| match s { Scalar::Null => None, Scalar::Bytes(b) => Some(String::from_utf8(b).unwrap()), s => panic!("{s:?}") }).collect::<Vec<_>>();
                if dt == &DataType::Utf8 { Utf8Array::<i32>::from_opts(v).boxed() } else { Utf8Array::<i64>::from_opts(v).boxed() }
            }
            PhysicalType::Binary | PhysicalType::LargeBinary => {
                let v = v.into_iter().map(|s| match s { Scalar::Null => None, Scalar::Bytes(b) => Some(b), s => panic!("{s:?}") }).collect::<Vec<_>>();
                if dt == &DataType::Binary { BinaryArray::<i32>::from_opts(v).boxed() } else { BinaryArray::<i64>::from_opts(v).boxed() }
            }
            PhysicalType::FixedSizeBinary => {
                let n = if let DataType::FixedSizeBinary(n) = dt { *n } else { panic!() };
                FixedSizeBinaryArray::from_iter(
                    v.into_iter().map(|s| match s { Scalar::Null => None, Scalar::Bytes(b) => Some(b), s => panic!("{s:?}") }),
                    n,
                )
                .boxed()
            }
            PhysicalType::List => build_list::<i32>(dt, v),
            PhysicalType::LargeList => build_list::<i64>(dt, v),
            p => unimplemented!("{p:?}"),
        }
    }
    fn build_list<O: Offset>(dt: &DataType, v: Vec<Scalar>) -> Box<dyn Array> {
        let inner = list_inner(dt).clone();
        let mut offs = vec![O::from_usize(0)];
        let mut vals = vec![];
        let mut bits = vec![];
        for s in v {
            match s {
                Scalar::Null => bits.push(false),
                Scalar::List(l) => {
                    bits.push(true);
                    vals.extend(l);
                }
                s => panic!("{s:?}"),
            }
            offs.push(O::from_usize(vals.len()));
        }
        let validity = if bits.iter().all(|b| *b) { None } else { Some(Bitmap::from_vec(bits)) };
        ListArray::<O>::new(dt.clone(), offs, build(&inner.data_type, vals), validity).boxed()
    }
}

pub fn new_null_array(dt: DataType, len: usize) -> Box<dyn Array> {
    scalar::build(&dt, vec![scalar::Scalar::Null; len])
}

pub mod growable {
    use super::*;
    pub trait Growable<'a>: Debug {
        fn extend(&mut self, index: usize, start: usize, len: usize);
        fn len(&self) -> usize;
        fn as_box(&mut self) -> Box<dyn Array>;
    }
    #[derive(Debug)]
    struct G<'a> {
        arrays: Vec<&'a dyn Array>,
        out: Vec<scalar::Scalar>,
    }
    impl<'a> Growable<'a> for G<'a> {
        fn extend(&mut self, index: usize, start: usize, len: usize) {
            for i in start..start + len {
                self.out.push(scalar::get(self.arrays[index], i));
            }
        }
        fn len(&self) -> usize {
            self.out.len()
        }
        fn as_box(&mut self) -> Box<dyn Array> {
            scalar::build(self.arrays[0].data_type(), std::mem::take(&mut self.out))
        }
    }
    pub fn make_growable<'a>(
        arrays: &[&'a dyn Array],
        _use_validity: bool,
        _capacity: usize,
    ) -> Box<dyn Growable<'a> + 'a> {
        assert!(!arrays.is_empty());
        let dt = arrays[0].data_type();
        assert!(
            arrays.iter().all(|a| a.data_type().to_physical_type() == dt.to_physical_type()),
            "growable arrays of different types"
        );
        Box::new(G { arrays: arrays.to_vec(), out: vec![] })
    }
}

// ---------------------------------------------------------------- mutable arrays
pub trait MutableArray: Debug + Send + Sync + 'static {
    fn data_type(&self) -> &DataType;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn as_box(&mut self) -> Box<dyn Array>;
    fn as_any(&self) -> &dyn Any;
    fn push_null(&mut self);
}
pub trait TryPush<A> {
    fn try_push(&mut self, item: A) -> Result<()>;
}
pub trait TryExtend<A> {
    fn try_extend<I: IntoIterator<Item = A>>(&mut self, iter: I) -> Result<()>;
}

#[derive(Debug, Clone)]
pub struct MutablePrimitiveArray<T: NativeType> {
    data_type: DataType,
    v: Vec<Option<T>>,
}
impl<T: NativeType> Default for MutablePrimitiveArray<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: NativeType> MutablePrimitiveArray<T> {
    pub fn new() -> Self {
        Self { data_type: default_type(T::PRIMITIVE), v: vec![] }
    }
    pub fn with_capacity(_c: usize) -> Self {
        Self::new()
    }
    pub fn push(&mut self, v: Option<T>) {
        self.v.push(v)
    }
    pub fn push_null(&mut self) {
        self.v.push(None)
    }
    pub fn to(self, data_type: DataType) -> Self {
        assert_eq!(data_type.to_physical_type(), crate::datatypes::PhysicalType::Primitive(T::PRIMITIVE));
        Self { data_type, ..self }
    }
}
impl<T: NativeType, P: AsRef<[Option<T>]>> From<P> for MutablePrimitiveArray<T> {
    fn from(v: P) -> Self {
        Self { data_type: default_type(T::PRIMITIVE), v: v.as_ref().to_vec() }
    }
}
impl<T: NativeType> MutableArray for MutablePrimitiveArray<T> {
    fn data_type(&self) -> &DataType {
        &self.data_type
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        PrimitiveArray::<T>::from(std::mem::take(&mut self.v)).to(self.data_type.clone()).boxed()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn push_null(&mut self) {
        self.v.push(None)
    }
}
impl<T: NativeType> TryExtend<Option<T>> for MutablePrimitiveArray<T> {
    fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, iter: I) -> Result<()> {
        self.v.extend(iter);
        Ok(())
    }
}

#[derive(Debug, Clone, Default)]
pub struct MutableBooleanArray {
    v: Vec<Option<bool>>,
}
impl MutableBooleanArray {
    pub fn new() -> Self {
        Self { v: vec![] }
    }
    pub fn with_capacity(_c: usize) -> Self {
        Self::new()
    }
    pub fn push(&mut self, v: Option<bool>) {
        self.v.push(v)
    }
    pub fn push_null(&mut self) {
        self.v.push(None)
    }
}
impl<P: AsRef<[Option<bool>]>> From<P> for MutableBooleanArray {
    fn from(v: P) -> Self {
        Self { v: v.as_ref().to_vec() }
    }
}
impl MutableArray for MutableBooleanArray {
    fn data_type(&self) -> &DataType {
        &DataType::Boolean
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        BooleanArray::from(std::mem::take(&mut self.v)).boxed()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn push_null(&mut self) {
        self.v.push(None)
    }
}
impl TryExtend<Option<bool>> for MutableBooleanArray {
    fn try_extend<I: IntoIterator<Item = Option<bool>>>(&mut self, iter: I) -> Result<()> {
        self.v.extend(iter);
        Ok(())
    }
}

macro_rules! mutable_bytes {
    ($name:ident, $arr:ident, $own:ty, $borrow:ty, $conv:expr) => {
        #[derive(Debug, Clone)]
        pub struct $name<O: Offset> {
            data_type: DataType,
            v: Vec<Option<$own>>,
            _p: std::marker::PhantomData<O>,
        }
        impl<O: Offset> Default for $name<O> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<O: Offset> $name<O> {
            pub fn new() -> Self {
                Self { data_type: $arr::<O>::default_data_type(), v: vec![], _p: Default::default() }
            }
            pub fn with_capacity(_c: usize) -> Self {
                Self::new()
            }
            pub fn push<T: AsRef<$borrow>>(&mut self, v: Option<T>) {
                self.v.push(v.map(|v| $conv(v.as_ref())))
            }
            pub fn push_null(&mut self) {
                self.v.push(None)
            }
        }
        impl<O: Offset, T: AsRef<$borrow>> From<Vec<Option<T>>> for $name<O> {
            fn from(v: Vec<Option<T>>) -> Self {
                let mut s = Self::new();
                for x in v.iter() {
                    s.push(x.as_ref());
                }
                s
            }
        }
        impl<O: Offset> MutableArray for $name<O> {
            fn data_type(&self) -> &DataType {
                &self.data_type
            }
            fn len(&self) -> usize {
                self.v.len()
            }
            fn as_box(&mut self) -> Box<dyn Array> {
                $arr::<O>::from_opts(std::mem::take(&mut self.v)).boxed()
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn push_null(&mut self) {
                self.v.push(None)
            }
        }
        impl<O: Offset, T: AsRef<$borrow>> TryExtend<Option<T>> for $name<O> {
            fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, iter: I) -> Result<()> {
                for x in iter {
                    self.push(x);
                }
                Ok(())
            }
        }
    };
}
mutable_bytes!(MutableUtf8Array, Utf8Array, String, str, |s: &str| s.to_string());
mutable_bytes!(MutableBinaryArray, BinaryArray, Vec<u8>, [u8], |s: &[u8]| s.to_vec());

#[derive(Debug, Clone)]
pub struct MutableListArray<O: Offset, M: MutableArray> {
    data_type: DataType,
    offsets: Vec<O>,
    values: M,
    bits: Vec<bool>,
}
impl<O: Offset, M: MutableArray + Default> MutableListArray<O, M> {
    pub fn new() -> Self {
        let values = M::default();
        let f = Box::new(Field::new("item", values.data_type().clone(), true));
        let dt = if O::IS_LARGE { DataType::LargeList(f) } else { DataType::List(f) };
        Self::new_from(values, dt, 0)
    }
    pub fn with_capacity(_c: usize) -> Self {
        Self::new()
    }
}
impl<O: Offset, M: MutableArray + Default> Default for MutableListArray<O, M> {
    fn default() -> Self {
        Self::new()
    }
}
impl<O: Offset, M: MutableArray> MutableListArray<O, M> {
    pub fn new_from(values: M, data_type: DataType, _capacity: usize) -> Self {
        assert_eq!(&list_inner(&data_type).data_type, values.data_type());
        Self { data_type, offsets: vec![O::from_usize(0)], values, bits: vec![] }
    }
    pub fn push_null(&mut self) {
        self.offsets.push(*self.offsets.last().unwrap());
        self.bits.push(false);
    }
    fn finish(&mut self) -> ListArray<O> {
        let bits = std::mem::take(&mut self.bits);
        let validity = if bits.iter().all(|b| *b) { None } else { Some(Bitmap::from_vec(bits)) };
        let offs = std::mem::replace(&mut self.offsets, vec![O::from_usize(0)]);
        ListArray::<O>::new(self.data_type.clone(), offs, self.values.as_box(), validity)
    }
}
impl<O: Offset, M: MutableArray> MutableArray for MutableListArray<O, M> {
    fn data_type(&self) -> &DataType {
        &self.data_type
    }
    fn len(&self) -> usize {
        self.bits.len()
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        self.finish().boxed()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn push_null(&mut self) {
        MutableListArray::push_null(self)
    }
}
impl<O: Offset, M, I, T> TryPush<Option<I>> for MutableListArray<O, M>
where
    M: MutableArray + TryExtend<Option<T>>,
    I: IntoIterator<Item = Option<T>>,
{
    fn try_push(&mut self, item: Option<I>) -> Result<()> {
        match item {
            None => self.push_null(),
            Some(it) => {
                self.values.try_extend(it)?;
                self.offsets.push(O::from_usize(self.values.len()));
                self.bits.push(true);
            }
        }
        Ok(())
    }
}
impl<O: Offset, M, I, T> TryExtend<Option<I>> for MutableListArray<O, M>
where
    M: MutableArray + TryExtend<Option<T>>,
    I: IntoIterator<Item = Option<T>>,
{
    fn try_extend<II: IntoIterator<Item = Option<I>>>(&mut self, iter: II) -> Result<()> {
        for i in iter {
            self.try_push(i)?;
        }
        Ok(())
    }
}
impl<O: Offset, M: MutableArray> From<MutableListArray<O, M>> for ListArray<O> {
    fn from(mut v: MutableListArray<O, M>) -> Self {
        v.finish()
    }
}
