//! Q03 and Q04: aggregates over rows and over users, against a plain recount.
use std::collections::BTreeMap;
use std::collections::BTreeSet;

use arrow::datatypes::DataType;
use datafusion_common::Column;
use datafusion_expr::col;
use datafusion_expr::lit;
use datafusion_expr::LogicalPlan;
use datafusion_expr::LogicalPlanBuilder;
use mon::Mon;
use mon::Rng;
use query::logical_plan::partitioned_aggregate::AggregateExpr;
use query::logical_plan::partitioned_aggregate::AggregateFunction as F;
use query::logical_plan::partitioned_aggregate::PartitionedAggregateFinalNode;
use query::logical_plan::partitioned_aggregate::PartitionedAggregatePartialNode;
use query::logical_plan::SortField;

use crate::util::*;

pub const FNS: [F; 5] = [F::Sum, F::Min, F::Max, F::Avg, F::Count];

#[derive(Clone, Debug)]
pub enum A {
    Count,
    Agg(F),
    Users,
    CountPer(F),
    AggPer(F, F),
}

/// the exact aggregate, as a fraction of integers scaled by MUL (num, den), or f64
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    I(i128, i128),
    F(f64),
}
pub fn num(v: &V) -> Option<X> {
    match v {
        V::Null => None,
        V::Int(i) => Some(X::I(i * MUL, 1)),
        V::Dec(d) => Some(X::I(*d, 1)),
        V::F(f) => Some(X::F(*f)),
        V::Ts(t) => Some(X::I(*t as i128 * MUL, 1)),
        o => panic!("{o:?}"),
    }
}
pub fn f64_of(x: &X) -> f64 {
    match x {
        X::I(n, d) => *n as f64 / *d as f64 / MUL as f64,
        X::F(f) => *f,
    }
}
fn less(a: &X, b: &X) -> bool {
    match (a, b) {
        (X::I(a, b), X::I(c, d)) if *b == 1 && *d == 1 => a < c,
        _ => f64_of(a) < f64_of(b),
    }
}
pub fn fold(f: &F, vals: &[X]) -> Option<X> {
    if matches!(f, F::Count) {
        return Some(X::I(vals.len() as i128 * MUL, 1));
    }
    if vals.is_empty() {
        return None;
    }
    let sum = |vals: &[X]| -> X {
        if vals.iter().all(|v| matches!(v, X::I(_, 1))) {
            X::I(vals.iter().map(|v| if let X::I(n, _) = v { *n } else { 0 }).sum(), 1)
        } else {
            X::F(vals.iter().map(f64_of).sum())
        }
    };
    Some(match f {
        F::Sum => sum(vals),
        F::Avg => match sum(vals) {
            X::I(n, 1) => X::I(n, vals.len() as i128),
            x => X::F(f64_of(&x) / vals.len() as f64),
        },
        F::Min => vals.iter().fold(vals[0].clone(), |a, b| if less(b, &a) { b.clone() } else { a }),
        F::Max => vals.iter().fold(vals[0].clone(), |a, b| if less(&a, b) { b.clone() } else { a }),
        F::Count => unreachable!(),
    })
}
pub fn same(got: &V, want: &Option<X>) -> bool {
    let w = match want {
        None => return matches!(got, V::Null),
        Some(w) => w,
    };
    match (got, w) {
        (V::Int(g), X::I(n, 1)) => g * MUL == *n,
        (V::Dec(g), X::I(n, 1)) => g == n,
        (V::Dec(g), X::I(n, d)) => (g * d - n).abs() < *d,
        (V::F(g), w) => {
            let w = f64_of(w);
            (g - w).abs() <= 1e-9 * w.abs().max(1.0)
        }
        (V::Dec(g), X::F(w)) => (*g as f64 / MUL as f64 - w).abs() <= 1e-9 * w.abs().max(1.0),
        _ => false,
    }
}

pub fn table(r: &mut Rng, vt: &DataType, users: usize, rows: usize, groups: &[DataType]) -> Table {
    let mut cols = vec![("project_id".to_string(), DataType::Int64), ("group_0".to_string(), DataType::Int64)];
    for (i, g) in groups.iter().enumerate() {
        cols.push((format!("g{i}"), g.clone()));
    }
    cols.push(("v".to_string(), vt.clone()));
    cols.push(("f".to_string(), DataType::Boolean));
    let mut us: Vec<i64> = (0..users).map(|_| if r.chance(1, 4) { 0 } else { r.range(0, users as i64 * 2) }).collect();
    if r.chance(1, 5) {
        us.iter_mut().for_each(|u| *u += 1_000_000_007);
    }
    us.sort();
    us.dedup();
    let mut data = vec![];
    let small = r.bool();
    for u in us {
        let n = if r.chance(1, 3) { 1 } else { 1 + r.below(1 + 2 * rows / users.max(1)) };
        for _ in 0..n {
            let mut row = vec![V::Int(1), V::Int(u as i128)];
            for g in groups {
                row.push(value(r, g, true, true));
            }
            row.push(match value(r, vt, small, true) {
                V::Int(i) => {
                    let (lo, hi) = int_range(vt);
                    V::Int(i.clamp(lo.max(-1_000_000), hi.min(1_000_000)))
                }
                v => v,
            });
            row.push(value(r, &DataType::Boolean, true, true));
            data.push(row);
        }
    }
    Table { cols, rows: data }
}

pub fn expr(a: &A, groups: &Option<Vec<(datafusion_expr::Expr, SortField)>>) -> AggregateExpr {
    let filter = None;
    let p = Column::from_name("group_0");
    let v = Column::from_name("v");
    let groups = groups.clone();
    match a {
        A::Count => AggregateExpr::Count { filter, groups, predicate: v, partition_col: p, distinct: false },
        A::Agg(f) => AggregateExpr::Aggregate { filter, groups, partition_col: p, predicate: v, agg: f.clone() },
        A::Users => AggregateExpr::PartitionedCount { filter, outer_fn: F::Count, groups, partition_col: p, distinct: true },
        A::CountPer(f) => AggregateExpr::PartitionedCount { filter, outer_fn: f.clone(), groups, partition_col: p, distinct: false },
        A::AggPer(i, o) => AggregateExpr::PartitionedAggregate {
            filter,
            inner_fn: i.clone(),
            outer_fn: o.clone(),
            predicate: v,
            groups,
            partition_col: p,
        },
    }
}
pub fn col_of(i: usize, a: &A) -> String {
    format!(
        "0_{i}_{}",
        match a {
            A::Count => "count",
            A::Agg(_) => "agg",
            A::Users | A::CountPer(_) => "partitioned_count",
            A::AggPer(..) => "partitioned_agg",
        }
    )
}

pub fn plan(input: LogicalPlan, segs: Option<Vec<LogicalPlan>>, aggs: &[(AggregateExpr, String)]) -> Result<LogicalPlan, String> {
    let partial = PartitionedAggregatePartialNode::try_new(input, segs, Column::from_name("group_0"), aggs.to_vec()).map_err(|e| e.to_string())?;
    let input = Run::ext(partial);
    let fin = aggs
        .iter()
        .map(|(e, name)| {
            let p = Column::from_name(format!("{}_{}", name, e.field_names()[0]));
            (e.clone().change_predicate(Column::from_name("segment"), p), name.clone())
        })
        .collect::<Vec<_>>();
    Ok(Run::ext(PartitionedAggregateFinalNode::try_new(input, fin).map_err(|e| e.to_string())?))
}

pub fn want(t: &Table, groups: usize, a: &A, filter: bool) -> BTreeMap<String, Option<X>> {
    let (vi, fi) = (t.cols.len() - 2, t.cols.len() - 1);
    // group -> user -> values
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Option<X>>>> = BTreeMap::new();
    for row in &t.rows {
        if filter && row[fi] != V::Bool(true) {
            continue;
        }
        let key = row[2..2 + groups].iter().map(|v| v.s()).collect::<Vec<_>>().join("|");
        m.entry(key).or_default().entry(row[1].s()).or_default().push(num(&row[vi]));
    }
    let mut out = BTreeMap::new();
    for (k, users) in m {
        let all: Vec<X> = users.values().flatten().flatten().cloned().collect();
        let res = match a {
            A::Count if all.is_empty() => continue,
            A::Count => fold(&F::Count, &all),
            A::Agg(_) if all.is_empty() => continue,
            A::Agg(f) => fold(f, &all),
            A::Users => Some(X::I(users.len() as i128 * MUL, 1)),
            A::CountPer(f) => fold(f, &users.values().map(|v| X::I(v.len() as i128 * MUL, 1)).collect::<Vec<_>>()),
            A::AggPer(i, o) => {
                let per: Vec<X> = users
                    .values()
                    .filter_map(|v| {
                        let v: Vec<X> = v.iter().flatten().cloned().collect();
                        if v.is_empty() { None } else { fold(i, &v) }
                    })
                    .collect();
                if per.is_empty() {
                    continue;
                }
                fold(o, &per)
            }
        };
        out.insert(k, res);
    }
    out
}

fn rarely(f: &F) -> bool {
    matches!(f, F::Avg)
}

pub fn run(m: &mut Mon, r: &mut Rng, run: &Run, users_level: bool, cases: usize, q_s: u64, t_s: u64) {
    let types = [
        DataType::Int8,
        DataType::Int16,
        DataType::Int32,
        DataType::Int64,
        DataType::UInt8,
        DataType::UInt16,
        DataType::UInt32,
        DataType::UInt64,
        DataType::Float64,
        dec(),
    ];
    let gtypes = [DataType::Utf8, DataType::Int64, DataType::Boolean, dec(), ts(), DataType::Int8];
    let mut combos = BTreeSet::new();
    for case in 0..cases {
        if !m.within(q_s, t_s) {
            break;
        }
        let vt = types[case % types.len()].clone();
        let ng = 1 + r.below(2);
        let groups: Vec<DataType> = (0..ng).map(|_| r.pick(&gtypes).clone()).collect();
        let users = 1 + r.below(12);
        let rows = 1 + r.below(60);
        let t = table(r, &vt, users, rows, &groups);
        let gexpr: Vec<(datafusion_expr::Expr, SortField)> =
            groups.iter().enumerate().map(|(i, g)| (col(format!("g{i}")), SortField { data_type: g.clone() })).collect();
        let filter = r.chance(1, 3);
        let n = 1 + r.below(3);
        let aggs: Vec<A> = (0..n)
            .map(|_| {
                let f = r.pick(&FNS).clone();
                if users_level {
                    match r.below(4) {
                        0 => A::Users,
                        1 => A::CountPer(f),
                        _ => A::AggPer(r.pick(&FNS).clone(), f),
                    }
                } else if r.chance(1, 4) {
                    A::Count
                } else {
                    A::Agg(f)
                }
            })
            .collect();
        let exprs: Vec<(AggregateExpr, String)> =
            aggs.iter().enumerate().map(|(i, a)| (expr(a, &Some(gexpr.clone())), format!("0_{i}"))).collect();
        let mode = r.below(3);
        let batches = t.cut(r, mode);
        let nb = batches.len();
        let parts = *r.pick(&[1usize, 1, 2, 5, 8]);
        let mut src = run.plain(&t, batches);
        if filter {
            src = LogicalPlanBuilder::from(src).filter(col("f").eq(lit(true))).unwrap().build().unwrap();
        }
        let p = match plan(src, None, &exprs) {
            Ok(p) => p,
            Err(e) => {
                m.violation("aggregate cannot be planned", format!("{vt} {aggs:?}: {e}"), serde_json::json!({}));
                continue;
            }
        };
        let out = match run.run_with(p, parts) {
            Ok(o) => o,
            Err(e) => {
                m.violation(
                    &format!("aggregate fails: {}", short(&e)),
                    format!("{vt} {aggs:?} groups {groups:?} filter {filter}: {e}"),
                    serde_json::json!({"rows": t.rows.len()}),
                );
                continue;
            }
        };
        m.count("rows aggregated", t.rows.len() as u64);
        m.count("queries", 1);
        if parts > 1 {
            m.count("queries over several partitions", 1);
        }
        for (i, a) in aggs.iter().enumerate() {
            combos.insert(format!("{vt} {a:?}"));
            let w = want(&t, ng, a, filter);
            let c = match out.col(&col_of(i, a)) {
                Some(c) => c,
                None => {
                    m.violation("aggregate column missing", format!("{:?}", out.names()), serde_json::json!({}));
                    continue;
                }
            };
            let gi: Vec<usize> = (0..ng).map(|g| out.col(&format!("g{g}")).unwrap()).collect();
            let mut got: BTreeMap<String, V> = BTreeMap::new();
            for row in &out.rows {
                let k = gi.iter().map(|g| row[*g].s()).collect::<Vec<_>>().join("|");
                if row[c] == V::Null {
                    continue;
                }
                if let Some(old) = got.insert(k.clone(), row[c].clone()) {
                    m.violation(
                        "a group is reported twice",
                        format!("{vt} {aggs:?}: group {k}: {} and {}", old.s(), row[c].s()),
                        serde_json::json!({}),
                    );
                }
            }
            let shape = match a {
                A::Count => "count".to_string(),
                A::Agg(f) => format!("{f:?}").to_lowercase(),
                A::Users => "unique users".to_string(),
                A::CountPer(f) => format!("{f:?} of count per user").to_lowercase(),
                A::AggPer(i, o) => format!("{o:?} of {i:?} per user").to_lowercase(),
            };
            m.observed((case, i), w.len() > 1);
            m.count("groups compared", w.len() as u64);
            if w.values().flatten().any(|x| f64_of(x) < 0.0) {
                m.count("negative results", 1);
            }
            let ctx = || {
                format!(
                    "{shape} of {vt} with {} aggregates, filter {filter}, {} rows in {nb} batches, {parts} partitions",
                    aggs.len(),
                    t.rows.len()
                )
            };
            for (k, x) in &w {
                match got.get(k) {
                    None => m.violation(
                        &format!("{shape}: group missing"),
                        format!("{}: group {k} want {x:?}", ctx()),
                        serde_json::json!({"case": case}),
                    ),
                    Some(g) if !same(g, x) => m.violation(
                        &format!("{shape}: wrong value"),
                        format!("{}: group {k} is {} want {x:?}", ctx(), g.s()),
                        serde_json::json!({"case": case, "table": t.rows.iter().take(30).map(|r| line(&t.cols, r)).collect::<Vec<_>>()}),
                    ),
                    _ => {}
                }
            }
            for k in got.keys() {
                if !w.contains_key(k) {
                    m.violation(
                        &format!("{shape}: group without matching rows reported"),
                        format!("{}: group {k} = {}", ctx(), got[k].s()),
                        serde_json::json!({"case": case}),
                    );
                }
            }
        }
        let _ = rarely;
    }
    m.count("combinations of type and aggregate", combos.len() as u64);
}

pub fn short(e: &str) -> String {
    let e: String = e.chars().filter(|c| !c.is_ascii_digit()).collect();
    e.chars().take(70).collect()
}
