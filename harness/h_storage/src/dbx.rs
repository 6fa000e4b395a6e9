//! A store under test together with the record of what was acknowledged, and the reading of its
//! answers into plain rows.
use std::collections::BTreeMap;
use std::path::Path;
use std::path::PathBuf;

use arrow2::array::Array;
use arrow2::array::BooleanArray;
use arrow2::array::PrimitiveArray;
use arrow2::array::Utf8Array;
use arrow2::chunk::Chunk;
use arrow2::datatypes::DataType;
use common::types::DType;
use mon::guarded;
use mon::Rng;
use prost::Message;
use storage::db::OptiDBImpl;
use storage::db::Options;
use storage::table;
use storage::KeyValue;
use storage::NamedValue;
use storage::Value;

use crate::gate;

pub type Row = Vec<Value>;

pub const TYPES: [DType; 8] = [
    DType::Int8,
    DType::Int16,
    DType::Int32,
    DType::Int64,
    DType::Boolean,
    DType::Decimal,
    DType::String,
    DType::Timestamp,
];

pub fn norm(v: Value) -> Value {
    match v {
        Value::Int8(None)
        | Value::Int16(None)
        | Value::Int32(None)
        | Value::Int64(None)
        | Value::Boolean(None)
        | Value::Decimal(None)
        | Value::String(None)
        | Value::Timestamp(None) => Value::Null,
        v => v,
    }
}

pub fn key_of(v: &Value) -> i64 {
    match v {
        Value::Int64(Some(v)) => *v,
        v => panic!("not a key: {v:?}"),
    }
}

pub fn gen_value(r: &mut Rng, t: &DType) -> Value {
    if r.chance(1, 6) {
        return match t {
            DType::Int8 => Value::Int8(None),
            DType::Int16 => Value::Int16(None),
            DType::Int32 => Value::Int32(None),
            DType::Int64 => Value::Int64(None),
            DType::Boolean => Value::Boolean(None),
            DType::Decimal => Value::Decimal(None),
            DType::String => Value::String(None),
            _ => Value::Timestamp(None),
        };
    }
    match t {
        DType::Int8 => Value::Int8(Some(r.i64_edge() as i8)),
        DType::Int16 => Value::Int16(Some(r.i64_edge() as i16)),
        DType::Int32 => Value::Int32(Some(r.i64_edge() as i32)),
        DType::Int64 => Value::Int64(Some(r.i64_edge())),
        DType::Boolean => Value::Boolean(Some(r.bool())),
        // 28 digits
        DType::Decimal => Value::Decimal(Some((r.i64_edge() as i128) * r.range(1, 1_000_000_000) as i128)),
        DType::String => Value::String(Some(r.string())),
        _ => Value::Timestamp(Some(r.i64_edge())),
    }
}

pub fn array_to_values(a: &dyn Array) -> Result<Vec<Value>, String> {
    fn prim<T: arrow2::types::NativeType>(a: &dyn Array, f: impl Fn(Option<T>) -> Value) -> Result<Vec<Value>, String> {
        let a = a
            .as_any()
            .downcast_ref::<PrimitiveArray<T>>()
            .ok_or_else(|| format!("array of type {:?} is not the primitive expected", a.data_type()))?;
        Ok(a.iter().map(f).collect())
    }
    let v = match a.data_type() {
        DataType::Int8 => prim::<i8>(a, Value::Int8)?,
        DataType::Int16 => prim::<i16>(a, Value::Int16)?,
        DataType::Int32 => prim::<i32>(a, Value::Int32)?,
        DataType::Int64 => prim::<i64>(a, Value::Int64)?,
        DataType::Timestamp(..) => prim::<i64>(a, Value::Timestamp)?,
        DataType::Decimal(..) => prim::<i128>(a, Value::Decimal)?,
        DataType::Boolean => a
            .as_any()
            .downcast_ref::<BooleanArray>()
            .ok_or("not a boolean array")?
            .iter()
            .map(Value::Boolean)
            .collect(),
        DataType::Utf8 => a
            .as_any()
            .downcast_ref::<Utf8Array<i32>>()
            .ok_or("not a string array")?
            .iter()
            .map(|v| Value::String(v.map(|s| s.to_string())))
            .collect(),
        t => return Err(format!("unexpected array type {t:?}")),
    };
    Ok(v.into_iter().map(norm).collect())
}

pub fn chunk_rows(c: &Chunk<Box<dyn Array>>) -> Result<Vec<Row>, String> {
    let cols = c.columns().iter().map(|a| array_to_values(a.as_ref())).collect::<Result<Vec<_>, _>>()?;
    let n = cols.first().map(|c| c.len()).unwrap_or(0);
    if let Some(bad) = cols.iter().find(|c| c.len() != n) {
        return Err(format!("columns of different lengths: {n} and {}", bad.len()));
    }
    Ok((0..n).map(|i| cols.iter().map(|c| c[i].clone()).collect()).collect())
}

#[derive(Clone, Debug)]
pub struct PartInfo {
    pub id: u64,
    pub values: u64,
    pub min: Vec<i64>,
    pub max: Vec<i64>,
    pub size: u64,
}

pub struct Db {
    pub dir: PathBuf,
    pub db: Option<OptiDBImpl>,
    pub collectors: usize,
}

impl Db {
    pub fn open(dir: &Path) -> Result<Db, String> {
        gate::opening(dir);
        let db = guarded(|| OptiDBImpl::open(dir.to_path_buf(), Options {}))?.map_err(|e| format!("{e:?}"))?;
        Ok(Db { dir: dir.to_path_buf(), db: Some(db), collectors: 1 })
    }
    pub fn db(&self) -> &OptiDBImpl {
        self.db.as_ref().unwrap()
    }
    pub fn close(&mut self) {
        if let Some(db) = self.db.take() {
            let _ = guarded(move || drop(db));
            gate::closed(&self.dir, self.collectors);
        }
    }
    pub fn compact(&self) -> Result<(), String> {
        gate::round("compactor", &self.dir)
    }
    pub fn gc(&self) -> Result<(), String> {
        gate::round("gc", &self.dir)
    }
    pub fn scan(&self, tbl: &str, proj: &[usize]) -> Result<Vec<Row>, String> {
        let mut h = self.begin(tbl, proj)?;
        h.take(usize::MAX)
    }
    /// Begins a scan that is read later (or dropped).
    pub fn begin(&self, tbl: &str, proj: &[usize]) -> Result<Held, String> {
        guarded(|| {
            let s = self.db().scan(tbl, proj.to_vec()).map_err(|e| format!("{e:?}"))?;
            Ok(Held { s: Box::pin(s), cols: proj.len() })
        })?
    }
    pub fn flush(&self, tbl: &str) -> Result<(), String> {
        guarded(|| self.db().flush(tbl).map_err(|e| format!("{e:?}")))?
    }
    pub fn metadata(&self, tbl: &str) -> Result<storage::metadata::Metadata, String> {
        read_metadata(&self.dir, tbl)
    }
}

pub struct Held {
    s: std::pin::Pin<Box<storage::db::ScanStream>>,
    cols: usize,
}

impl Held {
    /// At most `chunks` more chunks, through the stream interface a query uses.
    pub fn take(&mut self, chunks: usize) -> Result<Vec<Row>, String> {
        guarded(|| -> Result<Vec<Row>, String> {
            let mut out = vec![];
            let waker = futures::task::noop_waker();
            let mut cx = std::task::Context::from_waker(&waker);
            for _ in 0..chunks {
                match futures::Stream::poll_next(self.s.as_mut(), &mut cx) {
                    std::task::Poll::Ready(None) => break,
                    std::task::Poll::Ready(Some(c)) => {
                        let c = c.map_err(|e| format!("{e:?}"))?;
                        if c.columns().len() != self.cols {
                            return Err(format!("{} columns for a projection of {}", c.columns().len(), self.cols));
                        }
                        out.append(&mut chunk_rows(&c)?);
                    }
                    std::task::Poll::Pending => return Err("scan stream pending".into()),
                }
            }
            Ok(out)
        })?
    }
}

pub fn read_metadata(dir: &Path, tbl: &str) -> Result<storage::metadata::Metadata, String> {
    let b = std::fs::read(dir.join("tables").join(tbl).join("metadata")).map_err(|e| e.to_string())?;
    if b.len() < 12 {
        return Err("short metadata file".into());
    }
    let len = u64::from_le_bytes(b[4..12].try_into().unwrap()) as usize;
    if b.len() < 12 + len {
        return Err("truncated metadata file".into());
    }
    storage::metadata::Metadata::decode(&b[12..12 + len]).map_err(|e| format!("{e:?}"))
}

pub fn levels(md: &storage::metadata::Metadata) -> Vec<Vec<PartInfo>> {
    let k = |v: &storage::metadata::KeyValue| v.int64.unwrap_or(0) as i64;
    md.levels
        .iter()
        .map(|l| {
            l.parts
                .iter()
                .map(|p| PartInfo {
                    id: p.id,
                    values: p.values,
                    min: p.min.iter().map(k).collect(),
                    max: p.max.iter().map(k).collect(),
                    size: p.size_bytes,
                })
                .collect()
        })
        .collect()
}

impl Drop for Db {
    fn drop(&mut self) {
        self.close();
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: DType,
}

/// What the table should contain.
#[derive(Clone, Debug)]
pub struct Model {
    pub tbl: String,
    pub opts: table::Options,
    pub fields: Vec<Field>,
    /// acknowledged rows in insertion order; shorter than `fields` when written before a column
    pub rows: Vec<Row>,
}

impl Model {
    pub fn full(&self) -> Vec<Row> {
        self.rows
            .iter()
            .map(|r| {
                let mut r = r.clone();
                r.resize(self.fields.len(), Value::Null);
                r
            })
            .collect()
    }
    pub fn keys(&self) -> usize {
        self.opts.index_cols
    }
}

pub fn gen_options(r: &mut Rng, index_cols: usize, is_replacing: bool) -> table::Options {
    let levels = 3 + r.below(3);
    table::Options {
        index_cols,
        is_replacing,
        levels,
        l0_max_parts: r.below(4),
        l1_max_size_bytes: *r.pick(&[1, 400, 2_000, 8_000, 1 << 20]),
        level_size_multiplier: 1 + r.below(4),
        max_log_length_bytes: *r.pick(&[150, 600, 2_000, 1 << 20, 1 << 20]),
        merge_max_l1_part_size_bytes: *r.pick(&[1, 600, 3_000, 1 << 20]),
        merge_part_size_multiplier: 1 + r.below(3),
        merge_data_page_size_limit_bytes: *r.pick(&[None, Some(20), Some(100), Some(1 << 20)]),
        merge_row_group_values_limit: *r.pick(&[1, 2, 5, 20, 1000]),
        merge_array_size: *r.pick(&[1, 2, 3, 7, 50, 10000]),
        merge_chunk_size: *r.pick(&[1, 2, 3, 7, 50, 10000]),
        merge_array_page_size: *r.pick(&[1, 2, 3, 7, 50, 10000]),
        merge_max_page_size: 1024 * 1024,
    }
}

/// Creates a table with `keys` Int64 key columns and `extra` other columns.
pub fn create(db: &Db, r: &mut Rng, tbl: &str, opts: table::Options, extra: usize) -> Result<Model, String> {
    let mut m = Model { tbl: tbl.into(), opts: opts.clone(), fields: vec![], rows: vec![] };
    guarded(|| db.db().create_table(tbl.to_string(), opts.clone()).map_err(|e| format!("{e:?}")))??;
    for i in 0..opts.index_cols {
        add_field(db, &mut m, &format!("k{i}"), DType::Int64, false)?;
    }
    for i in 0..extra {
        let t = r.pick(&TYPES).clone();
        add_field(db, &mut m, &format!("c{i}"), t, true)?;
    }
    Ok(m)
}

pub fn add_field(db: &Db, m: &mut Model, name: &str, ty: DType, nullable: bool) -> Result<(), String> {
    guarded(|| db.db().add_field(&m.tbl, name, ty.clone(), nullable).map_err(|e| format!("{e:?}")))??;
    m.fields.push(Field { name: name.into(), ty });
    Ok(())
}

pub fn gen_keys(r: &mut Rng, n: usize, spread: i64) -> Vec<i64> {
    (0..n)
        .map(|_| {
            if r.chance(1, 60) {
                *r.pick(&[i64::MIN, i64::MAX, 0, -1])
            } else {
                r.range(-spread, spread)
            }
        })
        .collect()
}

/// A row for the table: the named values to insert, and the row as it must read back.
pub fn gen_row(r: &mut Rng, m: &Model, keys: &[i64]) -> (Vec<NamedValue>, Row) {
    let mut named = vec![];
    let mut row = vec![];
    for (i, k) in keys.iter().enumerate() {
        named.push(NamedValue::new(m.fields[i].name.clone(), Value::Int64(Some(*k))));
        row.push(Value::Int64(Some(*k)));
    }
    let mut rest = vec![];
    for f in &m.fields[keys.len()..] {
        if r.chance(1, 7) {
            row.push(Value::Null);
            continue;
        }
        let v = gen_value(r, &f.ty);
        row.push(norm(v.clone()));
        rest.push(NamedValue::new(f.name.clone(), v));
    }
    r.shuffle(&mut rest);
    named.append(&mut rest);
    (named, row)
}

pub fn insert(db: &Db, m: &mut Model, named: Vec<NamedValue>, row: Row) -> Result<(), String> {
    guarded(|| db.db().insert(&m.tbl, named).map_err(|e| format!("{e:?}")))??;
    m.rows.push(row);
    Ok(())
}

pub fn project(rows: &[Row], proj: &[usize]) -> Vec<Row> {
    // a scan returns the requested columns in schema order
    let mut p = proj.to_vec();
    p.sort();
    rows.iter().map(|r| p.iter().map(|i| r[*i].clone()).collect()).collect()
}

pub fn multiset(rows: &[Row]) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for r in rows {
        *m.entry(format!("{r:?}")).or_insert(0) += 1;
    }
    m
}

/// None when equal, otherwise a description of the difference.
pub fn diff(expected: &[Row], got: &[Row]) -> Option<String> {
    let (e, g) = (multiset(expected), multiset(got));
    if e == g {
        return None;
    }
    let lost: Vec<_> = e.iter().filter(|(k, n)| g.get(*k).copied().unwrap_or(0) < **n).map(|(k, _)| k.clone()).take(3).collect();
    let extra: Vec<_> = g.iter().filter(|(k, n)| e.get(*k).copied().unwrap_or(0) < **n).map(|(k, _)| k.clone()).take(3).collect();
    Some(format!("{} rows expected, {} returned; missing {lost:?}; not expected {extra:?}", expected.len(), got.len()))
}

/// Rows are in ascending order of their first `n` columns.
pub fn sorted_by(rows: &[Row], n: usize) -> bool {
    rows.windows(2).all(|w| {
        let a: Vec<i64> = w[0][..n].iter().map(key_of).collect();
        let b: Vec<i64> = w[1][..n].iter().map(key_of).collect();
        a <= b
    })
}

pub fn kv(keys: &[i64]) -> Vec<KeyValue> {
    keys.iter().map(|k| KeyValue::Int64(*k)).collect()
}
