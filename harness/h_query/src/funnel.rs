//! Funnels: recount of attempts from the rows of each user in time order.
use std::collections::BTreeMap;

use arrow::datatypes::DataType;
use common::funnel as cf;
use common::query::Breakdown;
use common::query::EventRef;
use common::query::TimeIntervalUnit as Unit;
use common::types::ROUND_DIGITS;
use common::DECIMAL_SCALE;
use datafusion_common::Column;
use datafusion_common::ScalarValue;
use datafusion_expr::and;
use datafusion_expr::col;
use datafusion_expr::lit;
use datafusion_expr::Expr;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use query::logical_plan::funnel as lf;
use query::logical_plan::SortField;
use serde_json::json;

use crate::e2e::*;
use crate::util::*;
use crate::world::*;

/// what a funnel sees of one row
#[derive(Clone, Debug)]
pub struct FRow {
    user: i64,
    ts: i64,
    steps: Vec<bool>,
    excl: Vec<bool>,
    consts: Vec<V>,
    key: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Spec {
    /// ranges of steps that do for this one
    orders: Vec<Option<Vec<(usize, usize)>>>,
    excl: Vec<Option<(usize, usize)>>,
    window: i64,
    unique: bool,
    unit: Option<Unit>,
    from: i64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Step {
    total: i64,
    dropped: i64,
    time: i64,
    from_start: i64,
}
pub fn start_of(u: &Unit, ms: i64) -> i64 {
    chrono::NaiveDateTime::parse_from_str(&bucket(u, ms), "%Y-%m-%dT%H:%M:%S").unwrap().and_utc().timestamp_millis()
}
struct Open {
    at: Vec<i64>,
    consts: Vec<V>,
}
/// every attempt that counts, as the moments of its steps
fn recount(m: &mut Mon, spec: &Spec, rows: &[FRow]) -> BTreeMap<(Vec<String>, i64), Vec<Step>> {
    let n = spec.orders.len();
    let mut users: BTreeMap<i64, Vec<&FRow>> = BTreeMap::new();
    for x in rows {
        users.entry(x.user).or_default().push(x);
    }
    let mut out: BTreeMap<(Vec<String>, i64), Vec<Step>> = BTreeMap::new();
    let mut count = |key: &Vec<String>, at: &Vec<i64>| {
        let b = match &spec.unit {
            None => spec.from,
            Some(u) => start_of(u, at[0]),
        };
        let s = out.entry((key.clone(), b)).or_insert_with(|| vec![Step::default(); n]);
        for i in 0..at.len() {
            s[i].total += 1;
            if i > 0 {
                s[i].time += at[i] - at[i - 1];
                s[i].from_start += at[i] - at[0];
            }
        }
    };
    for (_, mut rows) in users {
        rows.sort_by_key(|x| x.ts);
        let mut open: BTreeMap<Vec<String>, Open> = BTreeMap::new();
        'rows: for x in rows {
            if let Some(o) = open.get(&x.key) {
                let k = o.at.len();
                let mut ended = false;
                if x.ts - o.at[0] > spec.window {
                    count(&x.key, &o.at);
                    m.count("attempts out of time", 1);
                    ended = true;
                } else if (0..spec.excl.len()).any(|e| x.excl[e] && spec.excl[e].map(|(a, b)| a <= k && k <= b).unwrap_or(true)) {
                    m.count("attempts excluded", 1);
                    ended = true;
                } else if o.consts != x.consts {
                    m.count("attempts of other constants", 1);
                    ended = true;
                }
                if ended {
                    open.remove(&x.key);
                }
            }
            let k = open.get(&x.key).map(|o| o.at.len()).unwrap_or(0);
            let hit = match &spec.orders[k] {
                None => x.steps[k],
                Some(v) => v.iter().any(|(a, b)| (*a..=*b).any(|i| x.steps[i])),
            };
            if hit {
                let o = open.entry(x.key.clone()).or_insert_with(|| Open { at: vec![], consts: x.consts.clone() });
                o.at.push(x.ts);
                if o.at.len() == n {
                    count(&x.key, &o.at);
                    m.count("attempts completed", 1);
                    open.remove(&x.key);
                    if spec.unique {
                        break 'rows;
                    }
                }
            }
        }
        for (key, o) in open {
            count(&key, &o.at);
            m.count("attempts left open", 1);
        }
    }
    for s in out.values_mut() {
        for i in 1..n {
            s[i].dropped = s[i - 1].total - s[i].total;
        }
    }
    out
}
fn ratios(i: usize, s: &[Step]) -> [f64; 4] {
    let conv = if i == 0 { 100.0 } else { s[i].total as f64 / s[0].total as f64 * 100.0 };
    let per = |x: i64| if s[i].total > 0 { x as f64 / s[i].total as f64 } else { 0.0 };
    [conv, per(s[i].time), per(s[i].from_start), 100.0 - conv]
}
/// one row of an answer: ints are total, dropped, time, from start; decs conversion, avg, avg from start, drop off
#[derive(Clone, Debug)]
struct Got {
    key: Vec<String>,
    ts: i64,
    ints: Vec<[i64; 4]>,
    decs: Vec<[f64; 4]>,
}
fn judge(m: &mut Mon, what: &str, want: &BTreeMap<(Vec<String>, i64), Vec<Step>>, got: &[Got], eps: f64, desc: &dyn Fn() -> String) {
    let mut seen: BTreeMap<(Vec<String>, i64), usize> = BTreeMap::new();
    let mut wants: BTreeMap<(Vec<String>, i64), Vec<&Vec<Step>>> = BTreeMap::new();
    for ((k, ts), v) in want {
        wants.entry((k.clone(), *ts)).or_default().push(v);
    }
    for g in got {
        let id = (g.key.clone(), g.ts);
        *seen.entry(id.clone()).or_default() += 1;
        let Some(w) = want.get(&id) else {
            m.violation(&format!("{what}: a row too many"), format!("{g:?} but want {want:?}: {}", desc()), json!({}));
            return;
        };
        for i in 0..w.len() {
            let ints = [w[i].total, w[i].dropped, w[i].time, w[i].from_start];
            let r = ratios(i, w);
            if g.ints[i] != ints {
                m.violation(&format!("{what}: counts"), format!("step {i} of {id:?} is total, dropped off, time, time from start {:?}, want {ints:?}: {}", g.ints[i], desc()), json!({}));
                return;
            }
            for j in 0..4 {
                if (g.decs[i][j] - r[j]).abs() > eps + r[j].abs() * 1e-9 {
                    m.violation(
                        &format!("{what}: ratios"),
                        format!("step {i} of {id:?} is conversion, average time, average from start, drop off {:?}, want {r:?}: {}", g.decs[i], desc()),
                        json!({}),
                    );
                    return;
                }
            }
            m.count("steps compared", 1);
        }
    }
    for (id, w) in &wants {
        if seen.get(id).copied().unwrap_or(0) != w.len() {
            m.violation(&format!("{what}: rows"), format!("{id:?} is there {:?} times: want {w:?}: {}", seen.get(id), desc()), json!({}));
            return;
        }
    }
}
fn dec_f(v: &V) -> f64 {
    match v {
        V::Dec(d) => *d as f64 / 10f64.powi(DECIMAL_SCALE as i32),
        V::Int(i) => *i as f64,
        v => panic!("{v:?}"),
    }
}
fn gen_orders(r: &mut Rng, n: usize) -> Vec<Option<Vec<(usize, usize)>>> {
    (0..n)
        .map(|_| {
            if r.chance(3, 4) {
                return None;
            }
            Some(
                (0..1 + r.below(2))
                    .map(|_| {
                        let a = r.below(n);
                        (a, a + r.below(n - a))
                    })
                    .collect(),
            )
        })
        .collect()
}

// ---- the operator over batches of any size and any number of partitions

pub fn operator(m: &mut Mon, r: &mut Rng, run: &Run) {
    let n = m.n(350, 30000);
    for _ in 0..n {
        if !m.within(20, 700) {
            break;
        }
        one_operator(m, r, run);
        if m.violated() {
            return;
        }
    }
}
fn one_operator(m: &mut Mon, r: &mut Rng, run: &Run) {
    let ctypes = [DataType::Int64, DataType::Utf8, dec(), DataType::Boolean, ts(), DataType::Int16];
    let (t1, t2) = (r.pick(&ctypes).clone(), r.pick(&ctypes[..4]).clone());
    let users = 1 + r.below(8);
    let most = if r.chance(1, 10) { 4 } else { 90 };
    let rows_n = r.below(most);
    let events = 2 + r.below(4) as i64;
    let span = *r.pick(&[20 * HOUR, 5 * DAY, 100 * DAY]);
    let nulls = r.bool();
    let few = r.chance(2, 3);
    let mut used: Vec<(i64, i64)> = vec![];
    let mut rows: Vec<Vec<V>> = vec![];
    for _ in 0..rows_n {
        let u = 1 + r.below(users) as i64;
        let t = T0 + r.range(0, span);
        if used.contains(&(u, t)) {
            continue;
        }
        used.push((u, t));
        let user = if nulls && r.chance(1, 12) { V::Null } else { V::Int(u as i128) };
        let c = |r: &mut Rng, t: &DataType| if r.chance(2, 3) && few { V::Null } else { crate::util::value(r, t, true, nulls) };
        rows.push(vec![V::Int(1), user, V::Ts(t), V::Int(r.range(1, events + 1) as i128), c(r, &t1), c(r, &t2), if nulls && r.chance(1, 4) { V::Null } else { V::Int(r.range(0, 4) as i128) }]);
    }
    let tab = Table {
        cols: vec![
            ("project_id".into(), DataType::Int64),
            ("group_0".into(), DataType::Int64),
            ("created_at".into(), ts()),
            ("event".into(), DataType::Int64),
            ("c".into(), t1.clone()),
            ("b".into(), t2.clone()),
            ("v".into(), DataType::Int64),
        ],
        rows,
    };
    let n = 1 + r.below(4);
    // an event, and sometimes a condition that is unknown where v is missing
    let mut cond = |r: &mut Rng| {
        let e = r.range(1, events + 1);
        let v = if r.chance(1, 3) { Some((r.bool(), r.range(0, 4))) } else { None };
        (e, v)
    };
    let expr = |c: &(i64, Option<(bool, i64)>)| -> Expr {
        let e = col("event").eq(lit(c.0));
        match c.1 {
            None => e,
            Some((true, v)) => and(e, col("v").eq(lit(v))),
            Some((false, v)) => and(e, col("v").not_eq(lit(v))),
        }
    };
    let is = |c: &(i64, Option<(bool, i64)>), x: &[V]| {
        x[3] == V::Int(c.0 as i128)
            && match c.1 {
                None => true,
                Some((true, v)) => x[6] == V::Int(v as i128),
                Some((false, v)) => x[6] != V::Null && x[6] != V::Int(v as i128),
            }
    };
    let steps: Vec<_> = (0..n).map(|_| cond(r)).collect();
    let excl: Vec<_> = (0..r.below(3)).map(|_| cond(r)).collect();
    let spec = Spec {
        orders: gen_orders(r, n),
        excl: excl
            .iter()
            .map(|_| {
                if r.bool() {
                    return None;
                }
                let a = r.below(n);
                Some((a, a + r.below(n - a)))
            })
            .collect(),
        window: *r.pick(&[HOUR, 5 * HOUR, DAY, 30 * DAY]),
        unique: r.bool(),
        unit: r.pick(&[None, None, Some(Unit::Hour), Some(Unit::Day), Some(Unit::Week), Some(Unit::Month), Some(Unit::Year)]).clone(),
        from: T0,
    };
    let consts = r.chance(1, 3);
    let by: Vec<&str> = match r.below(4) {
        0 => vec!["b"],
        1 if r.bool() => vec!["c", "b"],
        _ => vec![],
    };
    let to = T0 + span;
    let frows: Vec<FRow> = tab
        .rows
        .iter()
        .filter(|x| x[1] != V::Null)
        .map(|x| FRow {
            user: match x[1] {
                V::Int(u) => u as i64,
                _ => 0,
            },
            ts: match x[2] {
                V::Ts(t) => t,
                _ => 0,
            },
            steps: steps.iter().map(|c| is(c, x)).collect(),
            excl: excl.iter().map(|c| is(c, x)).collect(),
            consts: if consts { vec![x[4].clone()] } else { vec![] },
            key: by.iter().map(|b| x[tab.col(b)].s()).collect(),
        })
        .collect();
    let want = recount(m, &spec, &frows);
    let batch = 1 + r.below(6);
    let parts = 1 + r.below(4);
    let mode = r.below(4);
    let batches = tab.cut(r, mode);
    let funnel = lf::Funnel {
        ts_col: Column::from_name("created_at"),
        from: at(T0),
        to: at(to),
        window: chrono::Duration::milliseconds(spec.window),
        steps: steps
            .iter()
            .zip(&spec.orders)
            .map(|(c, o)| {
                (expr(c), match o {
                    None => lf::StepOrder::Exact,
                    Some(v) => lf::StepOrder::Any(v.clone()),
                })
            })
            .collect(),
        exclude: if excl.is_empty() && r.bool() {
            None
        } else {
            Some(excl.iter().zip(&spec.excl).map(|(c, s)| lf::ExcludeExpr { expr: expr(c), steps: s.map(|(from, to)| lf::ExcludeSteps { from, to }) }).collect())
        },
        constants: if consts { Some(vec![col("c")]) } else { None },
        count: if spec.unique { lf::Count::Unique } else { lf::Count::NonUnique },
        filter: None,
        touch: None,
        partition_col: col("group_0"),
        time_interval: spec.unit.clone(),
        groups: if by.is_empty() {
            None
        } else {
            Some(by.iter().map(|b| (col(*b), b.to_string(), SortField { data_type: tab.cols[tab.col(b)].1.clone() })).collect())
        },
    };
    let desc = || {
        let mut rows: Vec<String> = tab.rows.iter().map(|x| x[1..].iter().map(|v| v.s()).collect::<Vec<_>>().join(" ")).collect();
        rows.sort();
        format!("steps {steps:?} excluding {excl:?} {spec:?} constants {consts} ({t1:?}) by {by:?} ({t2:?}) batches of {batch} in {parts} partitions, {} batches: rows user, time, event, c, b, v {rows:?}", batches.len())
    };
    let got = guarded(|| {
        let node = lf::FunnelNode::new(run.plain(&tab, batches.clone()), None, Column::from_name("group_0"), funnel).unwrap();
        run.run_cut(Run::ext(node), parts, batch)
    });
    let got = match got {
        Ok(g) => g,
        Err(e) => Err(format!("panic: {e}")),
    };
    m.count("operator runs", 1);
    m.count(if parts > 1 { "operator runs in several partitions" } else { "operator runs in one partition" }, 1);
    m.observed(format!("op {n} {} {:?} {parts} {} {consts} {} {t1:?} {t2:?}", spec.unique, spec.unit, excl.len(), by.len()), true);
    let out = match got {
        Ok(o) => o,
        Err(e) => {
            m.violation(&format!("funnel operator fails: {}", kind(&e)), format!("{e}: {}", desc()), json!({}));
            return;
        }
    };
    let got: Vec<Got> = out
        .rows
        .iter()
        .map(|x| {
            let c = |name: String| x[out.col(&name).unwrap()].clone();
            let int = |name: String| match c(name) {
                V::Int(i) => i as i64,
                v => panic!("{v:?}"),
            };
            let steps = 0..n;
            Got {
                key: by.iter().map(|b| c(b.to_string()).s()).collect(),
                ts: match c("ts".into()) {
                    V::Ts(t) => t,
                    v => panic!("{v:?}"),
                },
                ints: steps.clone().map(|i| [int(format!("step{i}_total")), int(format!("step{i}_dropped_off")), int(format!("step{i}_time_to_convert")), int(format!("step{i}_time_to_convert_from_start"))]).collect(),
                decs: steps
                    .map(|i| {
                        [
                            dec_f(&c(format!("step{i}_conversion_ratio"))),
                            dec_f(&c(format!("step{i}_avg_time_to_convert"))),
                            dec_f(&c(format!("step{i}_avg_time_to_convert_from_start"))),
                            dec_f(&c(format!("step{i}_drop_off_ratio"))),
                        ]
                    })
                    .collect(),
            }
        })
        .collect();
    judge(m, "funnel operator", &want, &got, 1e-6, &desc);
}

// ---- whole requests

pub fn requests(m: &mut Mon, r: &mut Rng, run: &Run) {
    let worlds = m.n(4, 300);
    for wi in 0..worlds {
        if !m.within(40, 1300) {
            break;
        }
        let mut w = World::new(r, &Shape { projects: 2, rows: 0, recs: 1, props: 12, twins: false });
        populate(r, &mut w);
        for _ in 0..60 {
            if !m.within(40, 1300) {
                break;
            }
            let p = &w.projs[r.below(2)];
            one_request(m, r, run, &w, p);
            if m.violated() {
                return;
            }
        }
        m.observed((wi, "world"), true);
    }
}
/// every row at a time of its own, as those of equal moments have no order
pub fn populate(r: &mut Rng, w: &mut World) {
    let mut used: Vec<i64> = vec![];
    for _ in 0..220 {
        let p = r.below(w.projs.len());
        let pr = &w.projs[p];
        let mut ts = match r.below(3) {
            0 => T0 + r.range(0, 40) * DAY,
            1 => T0 + r.range(0, 100) * HOUR,
            _ => T0 + r.range(0, 9 * DAY),
        };
        while used.contains(&ts) {
            ts += 1;
        }
        used.push(ts);
        let vals: Vec<V> = pr.props[..pr.own]
            .iter()
            .map(|q| match r.below(4) {
                0 => V::Null,
                1 => r.pick(&q.pool).clone(),
                _ => q.pool[0].clone(),
            })
            .collect();
        let row = Row {
            id: w.md.events.next_record_sequence(pr.id).unwrap() as i64,
            user: 1 + r.below(9) as i64,
            company: r.below(4) as i64,
            ts,
            event: r.below(pr.events.len()),
            vals,
        };
        w.put(p, row);
        if r.chance(1, 60) {
            w.flush();
        }
    }
}
struct Ev {
    e: EventRef,
    fs: Vec<F>,
}
fn ev(r: &mut Rng, p: &Proj) -> Ev {
    Ev { e: p.any_event(r), fs: if r.chance(2, 3) { vec![] } else { some_filters(r, p, 2) } }
}
fn opt<T>(r: &mut Rng, v: Vec<T>) -> Option<Vec<T>> {
    if v.is_empty() && r.bool() {
        None
    } else {
        Some(v)
    }
}
pub fn text(v: &V) -> String {
    match v {
        V::Null => "".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Str(s) => s.clone(),
        V::Ts(t) => format!("{:?}", at(*t).naive_utc()),
        V::Dec(d) => {
            let x = rust_decimal::Decimal::from_i128_with_scale(*d, DECIMAL_SCALE as u32).round_dp(ROUND_DIGITS.into());
            x.normalize().to_string()
        }
        V::F(f) => f.to_string(),
    }
}
pub struct Ask {
    pub now: i64,
    pub req: cf::Funnel,
    spec: Spec,
    to: i64,
    steps: Vec<Vec<Ev>>,
    excl: Vec<Ev>,
    global: Vec<F>,
    by: Vec<usize>,
    consts: Vec<usize>,
}
pub fn gen(r: &mut Rng, p: &Proj) -> Ask {
    let unit = r.pick(&[None, None, Some(Unit::Hour), Some(Unit::Day), Some(Unit::Week), Some(Unit::Month), Some(Unit::Year)]).clone();
    let now = T0 + r.range(8, 45) * DAY + r.range(0, 30) * HOUR;
    let (qt, from, to) = if r.chance(1, 3) {
        let (from, to) = (T0 - r.range(0, 3) * DAY, T0 + r.range(20, 60) * DAY);
        (common::query::QueryTime::Between { from: at(from), to: at(to) }, from, to)
    } else {
        time(r, &Unit::Week, now)
    };
    let n = 1 + r.below(4);
    let steps: Vec<Vec<Ev>> = (0..n).map(|_| (0..if r.chance(1, 4) { 2 } else { 1 }).map(|_| ev(r, p)).collect()).collect();
    let excl: Vec<Ev> = (0..if r.bool() { 0 } else { 1 + r.below(2) }).map(|_| ev(r, p)).collect();
    let esteps: Vec<Option<cf::ExcludeSteps>> = excl
        .iter()
        .map(|_| match r.below(3) {
            0 => None,
            1 => Some(cf::ExcludeSteps::All),
            _ => {
                let a = r.below(n);
                Some(cf::ExcludeSteps::Between(a, a + r.below(n - a)))
            }
        })
        .collect();
    let global = if r.bool() { vec![] } else { some_filters(r, p, 2) };
    let mut by: Vec<usize> = vec![];
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(2) {
            let i = r.below(p.own);
            if !by.contains(&i) {
                by.push(i);
            }
        }
    }
    let consts: Vec<usize> = (0..if r.chance(1, 4) { 1 + r.below(2) } else { 0 }).map(|_| r.below(p.own)).collect();
    let (wn, wu) = r.pick(&[(1, cf::TimeIntervalUnitSession::Hour), (20, cf::TimeIntervalUnitSession::Hour), (1, cf::TimeIntervalUnitSession::Day), (3, cf::TimeIntervalUnitSession::Day), (1, cf::TimeIntervalUnitSession::Week), (1, cf::TimeIntervalUnitSession::Month), (1, cf::TimeIntervalUnitSession::Year)]).clone();
    let window = wn as i64
        * match wu {
            cf::TimeIntervalUnitSession::Hour => HOUR,
            cf::TimeIntervalUnitSession::Day => DAY,
            cf::TimeIntervalUnitSession::Week => 7 * DAY,
            cf::TimeIntervalUnitSession::Month => 31 * DAY,
            _ => 372 * DAY,
        };
    let spec = Spec {
        orders: gen_orders(r, n),
        excl: esteps
            .iter()
            .map(|s| match s {
                None => None,
                Some(cf::ExcludeSteps::All) => Some((0, n - 1)),
                Some(cf::ExcludeSteps::Between(a, b)) => Some((*a, *b)),
            })
            .collect(),
        window,
        unique: r.bool(),
        unit: unit.clone(),
        from,
    };
    let req = cf::Funnel {
        time: qt,
        group_id: r.below(2),
        steps: steps
            .iter()
            .zip(&spec.orders)
            .map(|(evs, o)| cf::Step {
                events: evs.iter().map(|e| cf::Event { event: e.e.clone(), filters: opt(r, e.fs.iter().map(|f| f.req()).collect()) }).collect(),
                order: match o {
                    None => cf::StepOrder::Exact,
                    Some(v) => cf::StepOrder::Any(v.clone()),
                },
            })
            .collect(),
        time_window: cf::TimeWindow { n: wn, unit: wu },
        chart_type: match unit {
            None => r.pick(&[cf::ChartType::Steps, cf::ChartType::Frequency]).clone(),
            Some(u) => cf::ChartType::ConversionOverTime { interval_unit: u },
        },
        count: if spec.unique { cf::Count::Unique } else { cf::Count::NonUnique },
        filter: None,
        touch: None,
        holding_constants: opt(r, consts.iter().map(|i| p.props[*i].r()).collect()),
        exclude: {
            let v = excl.iter().zip(esteps).map(|(e, s)| cf::Exclude { event: e.e.clone(), filters: opt(r, e.fs.iter().map(|f| f.req()).collect()), steps: s }).collect();
            opt(r, v)
        },
        breakdowns: opt(r, by.iter().map(|i| Breakdown::Property(p.props[*i].r())).collect()),
        segments: None,
        filters: opt(r, global.iter().map(|f| f.req()).collect()),
    };
    Ask { now, req, spec, to, steps, excl, global, by, consts }
}
pub fn run_request(run: &Run, w: &World, p: &Proj, a: &Ask) -> Result<query::funnel::Response, String> {
    let req = guarded(|| query::funnel::fix_request(&w.md, p.id, a.req.clone())).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
    guard(run, query::funnel::FunnelProvider::new(w.md.clone(), w.db.clone()).funnel(ctx(p, a.now), req))
}
fn one_request(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let a = gen(r, p);
    let is = |e: &Ev, x: &Row| p.event_keeps(&e.e, x) && p.all_keep(&e.fs, &x.vals);
    let n = a.steps.len();
    let frows: Vec<FRow> = p
        .rows
        .iter()
        .filter(|x| x.ts >= a.spec.from && x.ts <= a.to && p.all_keep(&a.global, &x.vals))
        .map(|x| FRow {
            user: if a.req.group_id == 0 { x.user } else { x.company },
            ts: x.ts,
            steps: a.steps.iter().map(|v| v.iter().any(|e| is(e, x))).collect(),
            excl: a.excl.iter().map(|e| is(e, x)).collect(),
            consts: a.consts.iter().map(|i| x.vals[*i].clone()).collect(),
            // told apart by their values
            key: a.by.iter().map(|i| x.vals[*i].s()).collect(),
        })
        .filter(|x| x.user != 0)
        .collect();
    let want = recount(m, &a.spec, &frows);
    // a missing value and an empty text look the same in the answer
    let shown: BTreeMap<String, String> = a.by.iter().flat_map(|i| p.rows.iter().map(|x| (x.vals[*i].s(), text(&x.vals[*i])))).collect();
    let shows = |fs: &[F]| fs.iter().map(|f| f.show()).collect::<Vec<_>>();
    let evs = |v: &[Ev]| v.iter().map(|e| format!("{:?} {:?}", e.e, shows(&e.fs))).collect::<Vec<_>>();
    let props = |v: &[usize]| v.iter().map(|i| format!("{:?} {:?} {:?}", p.props[*i].r(), p.props[*i].ty, p.props[*i].dict)).collect::<Vec<_>>();
    let desc = || {
        format!(
            "customs {} time {:?} group {} {:?} steps {:?} excluding {:?} global {:?} by {:?} constants {:?}: rows user, time, event {:?}",
            p.defs(),
            a.req.time,
            a.req.group_id,
            a.spec,
            a.steps.iter().map(|v| evs(v)).collect::<Vec<_>>(),
            evs(&a.excl),
            shows(&a.global),
            props(&a.by),
            props(&a.consts),
            {
                let mut v: Vec<_> = frows.iter().map(|x| (x.user, x.ts - T0, x.steps.iter().map(|b| *b as u8).collect::<Vec<_>>(), x.excl.clone(), x.consts.clone(), x.key.clone())).collect();
                v.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
                v
            }
        )
    };
    m.count("requests", 1);
    m.observed(format!("req {n} {} {:?} {} {} {} {:?}", a.spec.unique, a.spec.unit, a.excl.len(), a.consts.len(), a.global.len(), a.by.iter().map(|i| format!("{:?}{:?}", p.props[*i].ty, p.props[*i].dict)).collect::<Vec<_>>()), true);
    let res = match run_request(run, w, p, &a) {
        Ok(x) => x,
        Err(e) => {
            m.violation(&format!("funnel fails: {}", kind(&e)), format!("{e}: {}", desc()), json!({}));
            return;
        }
    };
    let mut names = vec!["Segment".to_string()];
    names.extend(a.by.iter().map(|i| p.props[*i].name.clone()));
    if res.groups != names || res.steps.len() != n {
        m.violation("funnel: headings", format!("groups {:?}, want {names:?}, {} steps: {}", res.groups, res.steps.len(), desc()), json!({}));
        return;
    }
    // rows of the answer; shown keys may coincide, then they are told apart by their counts
    let mut got: Vec<Got> = vec![];
    for i in 0..res.steps[0].data.len() {
        let d = |s: usize| &res.steps[s].data[i];
        got.push(Got {
            key: d(0).groups.clone().unwrap_or_default()[1..].to_vec(),
            ts: d(0).ts,
            ints: (0..n).map(|s| [d(s).total, d(s).dropped_off, d(s).time_to_convert, d(s).time_to_convert_from_start]).collect(),
            decs: (0..n).map(|s| [d(s).conversion_ratio, d(s).avg_time_to_convert, d(s).avg_time_to_convert_from_start, d(s).drop_off_ratio].map(|x| x.to_string().parse::<f64>().unwrap())).collect(),
        });
        if (0..n).any(|s| d(s).groups != d(0).groups || d(s).ts != d(0).ts || d(s).groups.as_ref().map(|g| g[0].as_str()) != Some("0")) {
            m.violation("funnel: labels of steps", desc(), json!({}));
            return;
        }
    }
    // 0.500 is 0.5
    for g in &mut got {
        for (i, k) in a.by.iter().zip(&mut g.key) {
            if p.props[*i].ty == common::types::DType::Decimal && k.contains('.') {
                *k = k.trim_end_matches('0').trim_end_matches('.').to_string();
            }
        }
    }
    let mut left = want.clone();
    let mut back: BTreeMap<(Vec<String>, i64), Vec<Step>> = BTreeMap::new();
    for g in &mut got {
        // the key whose text this is, by its counts if there are several
        let ints = |w: &Vec<Step>| w.iter().map(|s| [s.total, s.dropped, s.time, s.from_start]).collect::<Vec<_>>();
        let same: Vec<(Vec<String>, i64)> = left.keys().filter(|(k, t)| *t == g.ts && k.iter().map(|x| shown[x].clone()).collect::<Vec<_>>() == g.key).cloned().collect();
        if let Some(k) = same.iter().find(|k| ints(&left[*k]) == g.ints).or(same.first()) {
            back.insert(k.clone(), left.remove(k).unwrap());
            g.key = k.0.clone();
        }
    }
    m.count("rows of answers", got.len() as u64);
    judge(m, "funnel", &want, &got, 0.5 * 10f64.powi(-(ROUND_DIGITS as i32)) + 1e-6, &desc);
    // what the steps are called
    for (s, v) in res.steps.iter().zip(&a.steps) {
        let name = match &v[0].e {
            EventRef::RegularName(n) => n.clone(),
            EventRef::Regular(id) => p.events.iter().find(|e| e.1 == *id).unwrap().0.clone(),
            EventRef::Custom(id) => p.customs.iter().find(|c| c.id == *id).unwrap().name.clone(),
        };
        if s.step != name {
            m.violation("funnel: names of steps", format!("{} want {name}: {}", s.step, desc()), json!({}));
        }
    }
    let _ = ScalarValue::Null;
}
