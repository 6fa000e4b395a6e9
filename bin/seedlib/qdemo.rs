#![allow(unused_imports, dead_code)]
use std::sync::Arc;
use arrow::array::*;
use arrow::datatypes::*;
use datafusion::datasource::{provider_as_source, MemTable};
use datafusion::execution::context::SessionState;
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::physical_plan::collect;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_common::Column;
use datafusion_common::ScalarValue;
use datafusion_expr::{col, lit, Expr, Extension, LogicalPlan, LogicalPlanBuilder, UserDefinedLogicalNode};
use query::physical_plan::planner::QueryPlanner;

type Cols = Vec<(&'static str, ArrayRef)>;
fn i64s(v: &[Option<i64>]) -> ArrayRef { Arc::new(Int64Array::from(v.to_vec())) }
fn ints(v: &[i64]) -> ArrayRef { Arc::new(Int64Array::from(v.to_vec())) }
fn strs(v: &[Option<&str>]) -> ArrayRef { Arc::new(StringArray::from(v.to_vec())) }
fn times(v: &[i64]) -> ArrayRef { Arc::new(TimestampMillisecondArray::from(v.to_vec())) }
fn decs(v: &[Option<i128>]) -> ArrayRef {
    Arc::new(Decimal128Array::from(v.to_vec()).with_precision_and_scale(common::DECIMAL_PRECISION, common::DECIMAL_SCALE).unwrap())
}
/// a scan of the columns in batches of the given sizes
fn mem(cols: Cols, sizes: &[usize]) -> LogicalPlan {
    let schema = Arc::new(Schema::new(cols.iter().map(|(n, a)| Field::new(*n, a.data_type().clone(), true)).collect::<Vec<_>>()));
    let all = RecordBatch::try_new(schema.clone(), cols.iter().map(|c| c.1.clone()).collect()).unwrap();
    let mut at = 0;
    let mut bs = vec![];
    for n in sizes {
        bs.push(all.slice(at, *n));
        at += n;
    }
    assert_eq!(at, all.num_rows());
    let p = LogicalPlanBuilder::scan("t", provider_as_source(Arc::new(MemTable::try_new(schema, vec![bs]).unwrap())), None).unwrap().build().unwrap();
    let e: Vec<Expr> = cols.iter().map(|c| Expr::Column(Column::new(Some("t"), c.0)).alias(c.0)).collect();
    LogicalPlanBuilder::from(p).project(e).unwrap().build().unwrap()
}
fn ext(n: impl UserDefinedLogicalNode + 'static) -> LogicalPlan { LogicalPlan::Extension(Extension { node: Arc::new(n) }) }
fn text(bs: &[RecordBatch]) -> Vec<String> {
    let mut out = vec![];
    for b in bs {
        for i in 0..b.num_rows() {
            let r: Vec<String> = b
                .columns()
                .iter()
                .map(|c| if c.is_null(i) { "-".to_string() } else { arrow::util::display::array_value_to_string(c, i).unwrap() })
                .collect();
            out.push(r.join(","));
        }
    }
    out
}
fn run_in(plan: LogicalPlan, parts: usize, batch: usize) -> Vec<String> {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(async {
        let cfg = SessionConfig::new().with_collect_statistics(true).with_target_partitions(parts).with_batch_size(batch);
        let state = SessionState::new_with_config_rt(cfg, Arc::new(RuntimeEnv::default())).with_query_planner(Arc::new(QueryPlanner {}));
        let ctx = SessionContext::new_with_state(state.clone());
        let p = state.create_physical_plan(&plan).await.unwrap();
        text(&collect(p, ctx.task_ctx()).await.unwrap())
    })
}
fn run(plan: LogicalPlan) -> Vec<String> { run_in(plan, 1, 8192) }
fn expect(what: &str, got: Vec<String>, want: &[&str]) {
    if got != want {
        eprintln!("{what}: got {got:?} want {want:?}");
        std::process::exit(1);
    }
}
fn expect_set(what: &str, mut got: Vec<String>, want: &[&str]) {
    got.sort();
    let mut want = want.to_vec();
    want.sort();
    expect(what, got, &want);
}
