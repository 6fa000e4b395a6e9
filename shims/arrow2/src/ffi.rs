//! C data interface, layout-compatible with the one of arrow.
use crate::array::{scalar, scalar::Scalar, Array, ListArray};
use crate::datatypes::{DataType, Field, PhysicalType, PrimitiveType, TimeUnit};
use crate::error::Result;
use std::ffi::{c_char, c_void, CString};

#[repr(C)]
#[derive(Debug)]
pub struct ArrowArray {
    length: i64,
    null_count: i64,
    offset: i64,
    n_buffers: i64,
    n_children: i64,
    buffers: *mut *const c_void,
    children: *mut *mut ArrowArray,
    dictionary: *mut ArrowArray,
    release: Option<unsafe extern "C" fn(*mut ArrowArray)>,
    private_data: *mut c_void,
}
#[repr(C)]
#[derive(Debug)]
pub struct ArrowSchema {
    format: *const c_char,
    name: *const c_char,
    metadata: *const c_char,
    flags: i64,
    n_children: i64,
    children: *mut *mut ArrowSchema,
    dictionary: *mut ArrowSchema,
    release: Option<unsafe extern "C" fn(*mut ArrowSchema)>,
    private_data: *mut c_void,
}
impl Drop for ArrowArray {
    fn drop(&mut self) {
        if let Some(r) = self.release {
            unsafe { r(self) }
        }
    }
}
impl Drop for ArrowSchema {
    fn drop(&mut self) {
        if let Some(r) = self.release {
            unsafe { r(self) }
        }
    }
}
struct ArrPriv {
    _bufs: Vec<Vec<u128>>,
    ptrs: Vec<*const c_void>,
    children: Vec<*mut ArrowArray>,
}
struct SchPriv {
    _format: CString,
    _name: CString,
    children: Vec<*mut ArrowSchema>,
}
unsafe extern "C" fn release_array(a: *mut ArrowArray) {
    let a = &mut *a;
    let p = Box::from_raw(a.private_data as *mut ArrPriv);
    for c in &p.children {
        drop(Box::from_raw(*c));
    }
    a.release = None;
}
unsafe extern "C" fn release_schema(a: *mut ArrowSchema) {
    let a = &mut *a;
    let p = Box::from_raw(a.private_data as *mut SchPriv);
    for c in &p.children {
        drop(Box::from_raw(*c));
    }
    a.release = None;
}
fn aligned(bytes: &[u8]) -> Vec<u128> {
    let mut v = vec![0u128; bytes.len() / 16 + 1];
    for (i, c) in bytes.chunks(16).enumerate() {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        v[i] = u128::from_le_bytes(b);
    }
    v
}
fn pack(bits: impl Iterator<Item = bool>) -> Vec<u8> {
    let mut out = vec![];
    for (i, b) in bits.enumerate() {
        if i % 8 == 0 {
            out.push(0);
        }
        if b {
            *out.last_mut().unwrap() |= 1 << (i % 8);
        }
    }
    out
}
fn prim_size(p: PrimitiveType) -> usize {
    match p {
        PrimitiveType::Int8 | PrimitiveType::UInt8 => 1,
        PrimitiveType::Int16 | PrimitiveType::UInt16 => 2,
        PrimitiveType::Int32 | PrimitiveType::UInt32 | PrimitiveType::Float32 => 4,
        PrimitiveType::Int64 | PrimitiveType::UInt64 | PrimitiveType::Float64 => 8,
        PrimitiveType::Int128 => 16,
        p => unimplemented!("{p:?}"),
    }
}
pub fn export_array_to_c(arr: Box<dyn Array>) -> ArrowArray {
    let n = arr.len();
    let vals = (0..n).map(|i| scalar::get(arr.as_ref(), i)).collect::<Vec<_>>();
    let nulls = vals.iter().filter(|v| v.is_null()).count();
    let mut bufs: Vec<Option<Vec<u128>>> = vec![if nulls == 0 {
        None
    } else {
        Some(aligned(&pack(vals.iter().map(|v| !v.is_null()))))
    }];
    let mut children = vec![];
    let offs = |large: bool, lens: &mut dyn Iterator<Item = usize>| {
        let mut b = vec![];
        let mut t = 0usize;
        let mut put = |t: usize| {
            if large { b.extend((t as i64).to_le_bytes()) } else { b.extend((t as i32).to_le_bytes()) }
        };
        put(0);
        for l in lens {
            t += l;
            put(t);
        }
        b
    };
    match arr.data_type().to_physical_type() {
        PhysicalType::Boolean => bufs.push(Some(aligned(&pack(vals.iter().map(|v| matches!(v, Scalar::Bool(true))))))),
        PhysicalType::Primitive(p) => {
            let sz = prim_size(p);
            let mut b = vec![];
            for v in &vals {
                match v {
                    Scalar::Prim(r) => b.extend(&r[..sz]),
                    _ => b.extend(std::iter::repeat(0u8).take(sz)),
                }
            }
            bufs.push(Some(aligned(&b)));
        }
        pt @ (PhysicalType::Utf8 | PhysicalType::LargeUtf8 | PhysicalType::Binary | PhysicalType::LargeBinary) => {
            let large = matches!(pt, PhysicalType::LargeUtf8 | PhysicalType::LargeBinary);
            let o = offs(large, &mut vals.iter().map(|v| if let Scalar::Bytes(b) = v { b.len() } else { 0 }));
            bufs.push(Some(aligned(&o)));
            let mut b = vec![];
            for v in &vals {
                if let Scalar::Bytes(x) = v {
                    b.extend(x);
                }
            }
            bufs.push(Some(aligned(&b)));
        }
        PhysicalType::FixedSizeBinary => {
            let sz = if let DataType::FixedSizeBinary(s) = arr.data_type() { *s } else { 0 };
            let mut b = vec![];
            for v in &vals {
                match v {
                    Scalar::Bytes(x) => b.extend(x),
                    _ => b.extend(std::iter::repeat(0u8).take(sz)),
                }
            }
            bufs.push(Some(aligned(&b)));
        }
        pt @ (PhysicalType::List | PhysicalType::LargeList) => {
            let o = offs(pt == PhysicalType::LargeList, &mut vals.iter().map(|v| if let Scalar::List(b) = v { b.len() } else { 0 }));
            bufs.push(Some(aligned(&o)));
            let inner = crate::array::list_inner(arr.data_type()).data_type.clone();
            let flat = vals.into_iter().flat_map(|v| if let Scalar::List(l) = v { l } else { vec![] }).collect();
            children.push(Box::into_raw(Box::new(export_array_to_c(scalar::build(&inner, flat)))));
        }
        p => unimplemented!("{p:?}"),
    }
    let mut own = vec![];
    let mut ptrs = vec![];
    for b in bufs {
        match b {
            None => ptrs.push(std::ptr::null()),
            Some(b) => {
                ptrs.push(b.as_ptr() as *const c_void);
                own.push(b);
            }
        }
    }
    let mut p = Box::new(ArrPriv { _bufs: own, ptrs, children });
    let a = ArrowArray {
        length: n as i64,
        null_count: nulls as i64,
        offset: 0,
        n_buffers: p.ptrs.len() as i64,
        n_children: p.children.len() as i64,
        buffers: p.ptrs.as_mut_ptr(),
        children: p.children.as_mut_ptr(),
        dictionary: std::ptr::null_mut(),
        release: Some(release_array),
        private_data: std::ptr::null_mut(),
    };
    let mut a = a;
    a.private_data = Box::into_raw(p) as *mut c_void;
    a
}
fn format(dt: &DataType) -> String {
    let tu = |t: &TimeUnit| match t {
        TimeUnit::Second => "s",
        TimeUnit::Millisecond => "m",
        TimeUnit::Microsecond => "u",
        TimeUnit::Nanosecond => "n",
    };
    match dt {
        DataType::Boolean => "b".into(),
        DataType::Int8 => "c".into(),
        DataType::UInt8 => "C".into(),
        DataType::Int16 => "s".into(),
        DataType::UInt16 => "S".into(),
        DataType::Int32 => "i".into(),
        DataType::UInt32 => "I".into(),
        DataType::Int64 => "l".into(),
        DataType::UInt64 => "L".into(),
        DataType::Float32 => "f".into(),
        DataType::Float64 => "g".into(),
        DataType::Utf8 => "u".into(),
        DataType::LargeUtf8 => "U".into(),
        DataType::Binary => "z".into(),
        DataType::LargeBinary => "Z".into(),
        DataType::FixedSizeBinary(n) => format!("w:{n}"),
        DataType::Decimal(p, s) => format!("d:{p},{s}"),
        DataType::Timestamp(u, tz) => format!("ts{}:{}", tu(u), tz.clone().unwrap_or_default()),
        DataType::Date32 => "tdD".into(),
        DataType::Date64 => "tdm".into(),
        DataType::Time32(u) | DataType::Time64(u) => format!("tt{}", tu(u)),
        DataType::Duration(u) => format!("tD{}", tu(u)),
        DataType::List(_) => "+l".into(),
        DataType::LargeList(_) => "+L".into(),
        d => unimplemented!("{d:?}"),
    }
}
pub fn export_field_to_c(field: &Field) -> ArrowSchema {
    let children = match &field.data_type {
        DataType::List(f) | DataType::LargeList(f) => vec![Box::into_raw(Box::new(export_field_to_c(f)))],
        _ => vec![],
    };
    let mut p = Box::new(SchPriv {
        _format: CString::new(format(&field.data_type)).unwrap(),
        _name: CString::new(field.name.clone()).unwrap(),
        children,
    });
    let mut s = ArrowSchema {
        format: p._format.as_ptr(),
        name: p._name.as_ptr(),
        metadata: std::ptr::null(),
        flags: if field.is_nullable { 2 } else { 0 },
        n_children: p.children.len() as i64,
        children: p.children.as_mut_ptr(),
        dictionary: std::ptr::null_mut(),
        release: Some(release_schema),
        private_data: std::ptr::null_mut(),
    };
    s.private_data = Box::into_raw(p) as *mut c_void;
    s
}
unsafe fn read(a: &ArrowArray, dt: &DataType) -> Vec<Scalar> {
    let off = a.offset as usize;
    let n = a.length as usize;
    let buf = |i: usize| *a.buffers.add(i) as *const u8;
    let valid = |i: usize| {
        let v = buf(0);
        v.is_null() || (*v.add((off + i) / 8) >> ((off + i) % 8)) & 1 == 1
    };
    (0..n)
        .map(|i| {
            if !valid(i) {
                return Scalar::Null;
            }
            match dt.to_physical_type() {
                PhysicalType::Primitive(p) => {
                    let sz = prim_size(p);
                    let mut r = [0u8; 16];
                    std::ptr::copy_nonoverlapping(buf(1).add((off + i) * sz), r.as_mut_ptr(), sz);
                    Scalar::Prim(r)
                }
                PhysicalType::List => {
                    let o = buf(1) as *const i32;
                    let (s, e) = (*o.add(off + i) as usize, *o.add(off + i + 1) as usize);
                    let child = read(&**a.children, &crate::array::list_inner(dt).data_type);
                    Scalar::List(child[s..e].to_vec())
                }
                p => unimplemented!("{p:?}"),
            }
        })
        .collect()
}
/// # Safety
/// `array` must describe valid memory of the given type.
pub unsafe fn import_array_from_c(array: ArrowArray, data_type: DataType) -> Result<Box<dyn Array>> {
    let v = read(&array, &data_type);
    Ok(scalar::build(&data_type, v))
}
#[allow(dead_code)]
fn _unused(_: ListArray<i32>) {}
