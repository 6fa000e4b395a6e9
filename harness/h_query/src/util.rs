//! Tables as plain values, cut into batches, and plans run by the repository's own planner.
use std::collections::BTreeMap;
use std::sync::Arc;

use arrow::array::*;
use arrow::datatypes::DataType;
use arrow::datatypes::Field;
use arrow::datatypes::Schema;
use arrow::datatypes::SchemaRef;
use arrow::datatypes::TimeUnit;
use common::DECIMAL_PRECISION;
use common::DECIMAL_SCALE;
use datafusion::datasource::provider_as_source;
use datafusion::datasource::MemTable;
use datafusion::execution::context::SessionState;
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::physical_plan::collect;
use datafusion::prelude::SessionConfig;
use datafusion::prelude::SessionContext;
use datafusion_expr::Extension;
use datafusion_expr::LogicalPlan;
use datafusion_expr::LogicalPlanBuilder;
use datafusion_expr::UserDefinedLogicalNode;
use mon::guarded;
use mon::Rng;
use query::physical_plan::planner::QueryPlanner;

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    F(f64),
    Dec(i128),
    Str(String),
    Ts(i64),
}
impl V {
    pub fn s(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::Int(i) => i.to_string(),
            V::F(f) => format!("{:?}f", if *f == 0.0 { 0.0 } else { *f }),
            V::Dec(d) => format!("{d}d"),
            V::Str(s) => format!("{s:?}"),
            V::Ts(t) => format!("@{t}"),
        }
    }
}
pub fn dec() -> DataType {
    DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE)
}
pub fn ts() -> DataType {
    DataType::Timestamp(TimeUnit::Millisecond, None)
}
pub const MUL: i128 = 10i128.pow(DECIMAL_SCALE as u32);

#[derive(Clone, Debug)]
pub struct Table {
    pub cols: Vec<(String, DataType)>,
    pub rows: Vec<Vec<V>>,
}
impl Table {
    pub fn schema(&self) -> SchemaRef {
        Arc::new(Schema::new(
            self.cols
                .iter()
                .map(|(n, t)| Field::new(n, t.clone(), true))
                .collect::<Vec<_>>(),
        ))
    }
    pub fn batch(&self, lo: usize, hi: usize) -> RecordBatch {
        let arrs = (0..self.cols.len())
            .map(|c| array(&self.cols[c].1, self.rows[lo..hi].iter().map(|r| &r[c])))
            .collect();
        let opts = RecordBatchOptions::new().with_row_count(Some(hi - lo));
        RecordBatch::try_new_with_options(self.schema(), arrs, &opts).unwrap()
    }
    /// the rows in the given cuts, in order
    pub fn cut(&self, r: &mut Rng, mode: usize) -> Vec<RecordBatch> {
        let n = self.rows.len();
        match mode {
            0 => vec![self.batch(0, n)],
            1 => (0..n).map(|i| self.batch(i, i + 1)).collect(),
            _ => {
                let mut out = vec![];
                let mut i = 0;
                while i < n {
                    if r.chance(1, 5) {
                        out.push(self.batch(i, i));
                    }
                    let j = (i + 1 + r.below(1 + n / 3)).min(n);
                    out.push(self.batch(i, j));
                    i = j;
                }
                if r.chance(1, 3) || out.is_empty() {
                    out.push(self.batch(n, n));
                }
                out
            }
        }
    }
    pub fn col(&self, name: &str) -> usize {
        self.cols.iter().position(|c| c.0 == name).unwrap()
    }
}

pub fn array<'a>(t: &DataType, vals: impl Iterator<Item = &'a V>) -> ArrayRef {
    macro_rules! num {
        ($A:ident, $P:ident, $T:ty) => {
            Arc::new($A::from(
                vals.map(|v| match v {
                    V::Null => None,
                    V::$P(x) => Some(*x as $T),
                    o => panic!("{o:?}"),
                })
                .collect::<Vec<Option<$T>>>(),
            )) as ArrayRef
        };
    }
    match t {
        DataType::Int8 => num!(Int8Array, Int, i8),
        DataType::Int16 => num!(Int16Array, Int, i16),
        DataType::Int32 => num!(Int32Array, Int, i32),
        DataType::Int64 => num!(Int64Array, Int, i64),
        DataType::UInt8 => num!(UInt8Array, Int, u8),
        DataType::UInt16 => num!(UInt16Array, Int, u16),
        DataType::UInt32 => num!(UInt32Array, Int, u32),
        DataType::UInt64 => num!(UInt64Array, Int, u64),
        DataType::Float32 => num!(Float32Array, F, f32),
        DataType::Float64 => num!(Float64Array, F, f64),
        DataType::Timestamp(TimeUnit::Millisecond, _) => num!(TimestampMillisecondArray, Ts, i64),
        DataType::Boolean => Arc::new(BooleanArray::from(
            vals.map(|v| match v {
                V::Null => None,
                V::Bool(x) => Some(*x),
                o => panic!("{o:?}"),
            })
            .collect::<Vec<_>>(),
        )),
        DataType::Utf8 => Arc::new(StringArray::from(
            vals.map(|v| match v {
                V::Null => None,
                V::Str(x) => Some(x.clone()),
                o => panic!("{o:?}"),
            })
            .collect::<Vec<_>>(),
        )),
        DataType::Decimal128(p, s) => Arc::new(
            Decimal128Array::from(
                vals.map(|v| match v {
                    V::Null => None,
                    V::Dec(x) => Some(*x),
                    o => panic!("{o:?}"),
                })
                .collect::<Vec<_>>(),
            )
            .with_precision_and_scale(*p, *s)
            .unwrap(),
        ),
        t => panic!("{t:?}"),
    }
}

pub fn cell(a: &ArrayRef, i: usize) -> V {
    if a.is_null(i) {
        return V::Null;
    }
    macro_rules! g {
        ($A:ident) => {
            a.as_any().downcast_ref::<$A>().unwrap().value(i)
        };
    }
    match a.data_type() {
        DataType::Int8 => V::Int(g!(Int8Array) as i128),
        DataType::Int16 => V::Int(g!(Int16Array) as i128),
        DataType::Int32 => V::Int(g!(Int32Array) as i128),
        DataType::Int64 => V::Int(g!(Int64Array) as i128),
        DataType::UInt8 => V::Int(g!(UInt8Array) as i128),
        DataType::UInt16 => V::Int(g!(UInt16Array) as i128),
        DataType::UInt32 => V::Int(g!(UInt32Array) as i128),
        DataType::UInt64 => V::Int(g!(UInt64Array) as i128),
        DataType::Float32 => V::F(g!(Float32Array) as f64),
        DataType::Float64 => V::F(g!(Float64Array)),
        DataType::Timestamp(TimeUnit::Millisecond, _) => V::Ts(g!(TimestampMillisecondArray)),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => V::Ts(g!(TimestampNanosecondArray) / 1_000_000),
        DataType::Boolean => V::Bool(g!(BooleanArray)),
        DataType::Utf8 => V::Str(g!(StringArray).to_string()),
        DataType::Decimal128(_, s) => {
            let v = g!(Decimal128Array);
            let d = DECIMAL_SCALE as i32 - *s as i32;
            V::Dec(if d >= 0 { v * 10i128.pow(d as u32) } else { v / 10i128.pow(-d as u32) })
        }
        t => panic!("unexpected result type {t:?}"),
    }
}

pub struct Out {
    pub cols: Vec<(String, DataType)>,
    pub rows: Vec<Vec<V>>,
    pub batches: usize,
}
impl Out {
    pub fn from(schema: SchemaRef, bs: &[RecordBatch]) -> Out {
        let mut rows = vec![];
        for b in bs {
            for i in 0..b.num_rows() {
                rows.push(b.columns().iter().map(|c| cell(c, i)).collect());
            }
        }
        Out {
            cols: schema.fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect(),
            rows,
            batches: bs.len(),
        }
    }
    pub fn col(&self, name: &str) -> Option<usize> {
        self.cols.iter().position(|c| c.0 == name)
    }
    pub fn names(&self) -> Vec<String> {
        self.cols.iter().map(|c| c.0.clone()).collect()
    }
    /// each row as "name=value ..." sorted by column name; the rows in order
    pub fn lines(&self) -> Vec<String> {
        self.rows.iter().map(|r| line(&self.cols, r)).collect()
    }
    pub fn sorted(&self) -> Vec<String> {
        let mut l = self.lines();
        l.sort();
        l
    }
}
pub fn line(cols: &[(String, DataType)], r: &[V]) -> String {
    let mut m: Vec<String> = cols.iter().zip(r).map(|(c, v)| format!("{}={}", c.0, v.s())).collect();
    m.sort();
    m.join(" ")
}
pub fn line_of(m: &BTreeMap<String, V>) -> String {
    m.iter().map(|(k, v)| format!("{k}={}", v.s())).collect::<Vec<_>>().join(" ")
}

pub struct Run {
    rt: tokio::runtime::Runtime,
}
impl Run {
    pub fn new() -> Run {
        Run {
            rt: tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(),
        }
    }
    pub fn block<T>(&self, f: impl std::future::Future<Output = T>) -> T {
        self.rt.block_on(f)
    }
    pub fn source(&self, t: &Table, batches: Vec<RecordBatch>) -> LogicalPlan {
        let mt = MemTable::try_new(t.schema(), vec![batches]).unwrap();
        LogicalPlanBuilder::scan("t", provider_as_source(Arc::new(mt)), None).unwrap().build().unwrap()
    }
    /// the same scan under names without a qualifier, as the storage scans of the queries are
    pub fn plain(&self, t: &Table, batches: Vec<RecordBatch>) -> LogicalPlan {
        let p = self.source(t, batches);
        let all: Vec<_> = t
            .cols
            .iter()
            .map(|c| datafusion_expr::Expr::Column(datafusion_common::Column::new(Some("t"), c.0.clone())).alias(c.0.clone()))
            .collect();
        LogicalPlanBuilder::from(p).project(all).unwrap().build().unwrap()
    }
    pub fn ext(n: impl UserDefinedLogicalNode + 'static) -> LogicalPlan {
        LogicalPlan::Extension(Extension { node: Arc::new(n) })
    }
    pub fn run_with(&self, plan: LogicalPlan, parts: usize) -> Result<Out, String> {
        self.run_cut(plan, parts, 8192)
    }
    /// `batch`: how many rows operators hand on at once
    pub fn run_cut(&self, plan: LogicalPlan, parts: usize, batch: usize) -> Result<Out, String> {
        let res = guarded(|| {
            self.rt.block_on(async {
                let state = SessionState::new_with_config_rt(
                    SessionConfig::new().with_collect_statistics(true).with_target_partitions(parts).with_batch_size(batch),
                    Arc::new(RuntimeEnv::default()),
                )
                .with_query_planner(Arc::new(QueryPlanner {}));
                let ctx = SessionContext::new_with_state(state.clone());
                let f = async {
                    let p = state.create_physical_plan(&plan).await.map_err(|e| format!("plan: {e}"))?;
                    let schema = p.schema();
                    let bs = collect(p, ctx.task_ctx()).await.map_err(|e| format!("run: {e}"))?;
                    for b in &bs {
                        // as when production joins the batches: by position, under the names of the plan
                        let types = |s: &Schema| s.fields().iter().map(|f| f.data_type().clone()).collect::<Vec<_>>();
                        if types(&b.schema()) != types(&schema) {
                            return Err(format!("batch schema {:?} but plan schema {:?}", b.schema(), schema));
                        }
                    }
                    Ok(Out::from(schema, &bs))
                };
                match tokio::time::timeout(std::time::Duration::from_secs(60), f).await {
                    Ok(r) => r,
                    Err(_) => Err("no answer in 60 s".to_string()),
                }
            })
        });
        match res {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}")),
        }
    }
    pub fn run(&self, plan: LogicalPlan) -> Result<Out, String> {
        self.run_with(plan, 1)
    }
}

/// first difference of two lists of lines
pub fn diff(got: &[String], want: &[String]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Some(format!(
        "{} rows, want {}; first difference at row {i}: got {:?} want {:?}",
        got.len(),
        want.len(),
        got.get(i),
        want.get(i)
    ))
}

pub fn int_range(t: &DataType) -> (i128, i128) {
    match t {
        DataType::Int8 => (i8::MIN as i128, i8::MAX as i128),
        DataType::Int16 => (i16::MIN as i128, i16::MAX as i128),
        DataType::Int32 => (i32::MIN as i128, i32::MAX as i128),
        DataType::Int64 => (i64::MIN as i128, i64::MAX as i128),
        DataType::UInt8 => (0, u8::MAX as i128),
        DataType::UInt16 => (0, u16::MAX as i128),
        DataType::UInt32 => (0, u32::MAX as i128),
        DataType::UInt64 => (0, u64::MAX as i128),
        t => panic!("{t:?}"),
    }
}
pub const INTS: [DataType; 8] = [
    DataType::Int8,
    DataType::Int16,
    DataType::Int32,
    DataType::Int64,
    DataType::UInt8,
    DataType::UInt16,
    DataType::UInt32,
    DataType::UInt64,
];

pub const WORDS: [&str; 8] = ["", "a", "b", "Ä", "a b", "x_1", "日本", "null"];

/// a value of the type; `few` keeps to a handful of different values
pub fn value(r: &mut Rng, t: &DataType, few: bool, nulls: bool) -> V {
    if nulls && r.chance(1, 6) {
        return V::Null;
    }
    match t {
        DataType::Boolean => V::Bool(r.bool()),
        DataType::Utf8 => {
            if few || r.bool() {
                V::Str(r.pick(&WORDS).to_string())
            } else {
                V::Str(r.string())
            }
        }
        DataType::Float64 | DataType::Float32 => {
            if few {
                V::F(r.range(-2, 3) as f64 / 2.0)
            } else {
                V::F(r.range(-4000, 4000) as f64 / 8.0)
            }
        }
        DataType::Decimal128(..) => {
            if few {
                V::Dec(r.range(-2, 3) as i128 * MUL / 2)
            } else {
                V::Dec(r.range(-4_000_000, 4_000_000) as i128 * MUL / 1000 + r.range(0, 9) as i128)
            }
        }
        DataType::Timestamp(..) => {
            if few {
                V::Ts(r.range(0, 4) * 86_400_000)
            } else {
                V::Ts(1_700_000_000_000 + r.range(0, 10_000_000_000))
            }
        }
        t => {
            let (lo, hi) = int_range(t);
            if few {
                V::Int(r.range(if lo < 0 { -2 } else { 0 }, 3) as i128)
            } else if r.chance(1, 4) {
                V::Int(*r.pick(&[lo, lo + 1, hi, hi - 1, 0, 1]))
            } else {
                V::Int(r.range(lo.max(-1000) as i64, hi.min(1000) as i64) as i128)
            }
        }
    }
}
