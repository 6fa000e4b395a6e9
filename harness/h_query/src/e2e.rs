//! Whole queries through the providers of the query crate on a populated installation.
use std::collections::BTreeMap;

use common::query::EventRef;
use common::query::PropertyRef;
use common::query::QueryTime;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use query::context::Format;
use query::event_records;
use query::group_records;
use query::properties;
use query::Context;
use serde_json::json;

use crate::util::*;
use crate::world::*;

pub fn ctx(p: &Proj, now: i64) -> Context {
    Context { project_id: p.id, format: Format::Regular, cur_time: at(now) }
}
pub fn guard<T>(run: &Run, f: impl std::future::Future<Output = Result<T, query::error::QueryError>>) -> Result<T, String> {
    match guarded(|| run.block(async { tokio::time::timeout(std::time::Duration::from_secs(60), f).await })) {
        Ok(Ok(Ok(v))) => Ok(v),
        Ok(Ok(Err(e))) => Err(format!("error: {e}")),
        Ok(Err(_)) => Err("no answer in 60 s".into()),
        Err(p) => Err(format!("panic: {p}")),
    }
}
/// the words of an error that do not depend on the data
pub fn kind(e: &str) -> String {
    crate::agg::short(e)
}
pub fn all_time() -> QueryTime {
    QueryTime::Between { from: at(T0 - 30 * DAY), to: at(T0 + 30 * DAY) }
}
pub fn ids(fs: &query::ColumnarDataTable, name: &str) -> Option<Vec<V>> {
    let c = fs.columns.iter().find(|c| c.name == name)?;
    Some((0..c.data.len()).map(|i| cell(&c.data, i)).collect())
}

/// Q01: which rows do filters keep
pub fn filters(m: &mut Mon, r: &mut Rng, run: &Run) {
    let worlds = m.n(6, 400);
    for wi in 0..worlds {
        if !m.within(35, 1200) {
            break;
        }
        let w = World::new(r, &Shape { projects: 2, rows: 60, recs: 24, props: 12, twins: false });
        for _ in 0..70 {
            if !m.within(35, 1200) {
                break;
            }
            let p = &w.projs[r.below(2)];
            match r.below(5) {
                0 => group_filters(m, r, run, &w, p),
                1 => value_filters(m, r, run, &w, p),
                _ => event_filters(m, r, run, &w, p),
            }
            if m.violated() {
                return;
            }
        }
        m.observed((wi, "world"), true);
    }
}
fn opset(m: &mut Mon, p: &Proj, fs: &[F]) {
    for f in fs {
        let q = &p.props[f.prop];
        m.observed(format!("{:?} {:?} {:?} {}", q.ty, q.dict, f.op, f.vals.as_ref().map(|v| v.len()).unwrap_or(0)), true);
        m.count(&format!("filters {:?}", f.op), 1);
    }
}
fn event_filters(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    // filters on one property often, so that several operations meet on it
    let some = |r: &mut Rng, n: usize| -> Vec<F> {
        let one = r.below(p.ne);
        let same = r.bool();
        (0..n).map(|_| if same { filter_on(r, &p.props, one) } else { filter(r, &p.props[..p.ne], true) }).collect()
    };
    let global: Vec<F> = {
        let n = r.below(3);
        some(r, n)
    };
    let events: Option<Vec<(EventRef, Vec<F>)>> = if r.chance(1, 3) {
        None
    } else {
        Some(
            (0..1 + r.below(2))
                .map(|_| {
                    let n = r.below(3);
                    (p.any_event(r), some(r, n))
                })
                .collect(),
        )
    };
    let wrap = |r: &mut Rng, fs: &[F]| -> Option<Vec<common::query::PropValueFilter>> {
        if fs.is_empty() && r.bool() { None } else { Some(fs.iter().map(|f| f.req()).collect()) }
    };
    let req = event_records::EventRecordsSearchRequest {
        time: all_time(),
        events: events.as_ref().map(|es| {
            es.iter().map(|(e, fs)| event_records::Event { event: e.clone(), filters: wrap(r, fs) }).collect()
        }),
        filters: wrap(r, &global),
        properties: Some(vec![PropertyRef::Event("event_id".into())]),
    };
    let desc = || format!(
        "customs {} global {:?} events {:?}",
        p.defs(),
        global.iter().map(|f| f.show()).collect::<Vec<_>>(),
        events.as_ref().map(|es| es.iter().map(|(e, fs)| format!("{e:?}: {:?}", fs.iter().map(|f| f.show()).collect::<Vec<_>>())).collect::<Vec<_>>())
    );
    let want: Vec<i64> = {
        let mut v: Vec<i64> = p
            .rows
            .iter()
            .filter(|row| {
                p.all_keep(&global, &row.vals)
                    && events.as_ref().map(|es| es.iter().any(|(e, fs)| p.event_keeps(e, row) && p.all_keep(fs, &row.vals))).unwrap_or(true)
            })
            .map(|row| row.id)
            .collect();
        v.sort();
        v.reverse();
        v.truncate(100);
        v
    };
    opset(m, p, &global);
    for (_, fs) in events.iter().flatten() {
        opset(m, p, fs);
    }
    m.count("requests with filters", 1);
    m.count("rows kept", want.len() as u64);
    m.count("rows judged", p.rows.len() as u64);
    let got = (|| {
        let req = guarded(|| event_records::fix_search_request(&w.md, p.id, req)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
        guard(run, event_records::EventRecordsProvider::new(w.md.clone(), w.db.clone()).search(ctx(p, T0 + 9 * DAY), req))
    })();
    match got {
        Err(e) => m.violation(&format!("event filters fail: {}", kind(&e)), format!("{}: {e}", desc()), json!({})),
        Ok(t) => match ids(&t, "event_id") {
            None => m.violation("no event id", format!("{} columns {:?}", desc(), t.columns.iter().map(|c| &c.name).collect::<Vec<_>>()), json!({})),
            Some(v) => {
                let got: Vec<i64> = v.iter().map(|v| if let V::Int(i) = v { *i as i64 } else { -1 }).collect();
                m.check(got == want, "event filters", || format!("{}: got {got:?} want {want:?}", desc()));
            }
        },
    }
}
fn group_filters(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let gid = r.below(2);
    let own: Vec<usize> = (0..p.props.len()).filter(|i| p.props[*i].gid == Some(gid)).collect();
    if own.is_empty() {
        return;
    }
    let one = *r.pick(&own);
    let same = r.bool();
    let fs: Vec<F> = (0..1 + r.below(3))
        .map(|_| {
            let i = if same { one } else { *r.pick(&own) };
            filter_on(r, &p.props, i)
        })
        .collect();
    let req = group_records::GroupRecordsSearchRequest {
        time: None,
        group_id: gid,
        filters: Some(fs.iter().map(|f| f.req()).collect()),
        properties: Some(vec![PropertyRef::Group("id".into(), gid)]),
        sort: None,
    };
    let desc = || format!("group {gid} filters {:?}", fs.iter().map(|f| f.show()).collect::<Vec<_>>());
    let mut want: Vec<String> = p.recs.iter().filter(|x| x.gid == gid && p.all_keep(&fs, &x.vals)).map(|x| x.name.clone()).collect();
    want.sort();
    opset(m, p, &fs);
    m.count("group requests with filters", 1);
    let got = (|| {
        let req = guarded(|| group_records::fix_search_request(&w.md, p.id, req)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
        guard(run, group_records::GroupRecordsProvider::new(w.md.clone(), w.db.clone()).search(ctx(p, T0 + 9 * DAY), req))
    })();
    match got {
        Err(e) => m.violation(&format!("group filters fail: {}", kind(&e)), format!("{}: {e}", desc()), json!({})),
        Ok(t) => {
            let mut got: Vec<String> = ids(&t, "id")
                .unwrap_or_default()
                .iter()
                .map(|v| match v {
                    V::Str(s) => s.clone(),
                    o => format!("{o:?}"),
                })
                .collect();
            got.sort();
            m.check(got == want, "group filters", || format!("{}: got {got:?} want {want:?}", desc()));
        }
    }
}
pub fn value_filters(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    // the filter of a listing is not converted for times
    let fs: Vec<F> = (0..r.below(2)).map(|_| filter(r, &p.props[..p.ne], false)).collect();
    let prop = fs.first().map(|f| f.prop).unwrap_or_else(|| r.below(p.ne));
    let event = if r.bool() { None } else { Some(p.any_event(r)) };
    let q = &p.props[prop];
    let req = properties::PropertyValues {
        property: q.r(),
        event: event.clone(),
        filter: fs.first().map(|f| properties::Filter { operation: f.op.clone(), value: f.vals.as_ref().map(|v| v.iter().map(scalar).collect()) }),
    };
    let desc = || format!("customs {} values of {:?} ({:?}) event {event:?} filter {:?}", p.defs(), q.r(), q.dict, fs.first().map(|f| f.show()));
    let mut vals: Vec<V> = vec![];
    for row in &p.rows {
        if event.as_ref().map(|e| p.event_keeps(e, row)).unwrap_or(true) && fs.iter().all(|f| f.keeps(&row.vals[prop])) && !vals.contains(&row.vals[prop]) {
            vals.push(row.vals[prop].clone());
        }
    }
    vals.sort_by(|a, b| match (a, b) {
        (V::Null, V::Null) => std::cmp::Ordering::Equal,
        (V::Null, _) => std::cmp::Ordering::Greater,
        (_, V::Null) => std::cmp::Ordering::Less,
        (a, b) => a.partial_cmp(b).unwrap(),
    });
    opset(m, p, &fs);
    m.count("value listings", 1);
    match guard(run, properties::PropertiesProvider::new(w.md.clone(), w.db.clone()).values(ctx(p, T0 + 9 * DAY), req)) {
        Err(e) => m.violation(&format!("value filters fail: {}", kind(&e)), format!("{}: {e}", desc()), json!({})),
        Ok(a) => {
            let got: Vec<V> = (0..a.len()).map(|i| cell(&a, i)).collect();
            m.check(got == vals, "value listing", || format!("{}: got {got:?} want {vals:?}", desc()));
        }
    }
}
pub fn _unused(_: BTreeMap<String, V>) {}

// ---------------------------------------------------------------------------------------------
// Q02: event segmentation

use arrow::datatypes::DataType;
use chrono::Datelike;
use chrono::Timelike;
use common::event_segmentation as es;
use common::query::AggregateFunction as Agg;
use common::query::Breakdown;
use common::query::PartitionedAggregateFunction as Per;
use common::query::TimeIntervalUnit as Unit;
use common::types::DType;
use query::logical_plan::partitioned_aggregate::AggregateFunction as F2;

use crate::agg;
use crate::agg::X;

/// start of the interval that a moment lies in
pub fn bucket(u: &Unit, ms: i64) -> String {
    let t = at(ms).naive_utc();
    let d = t.date();
    let d = match u {
        Unit::Hour | Unit::Day => d,
        Unit::Week => d - chrono::Duration::days(d.weekday().num_days_from_monday() as i64),
        Unit::Month => d.with_day(1).unwrap(),
        Unit::Year => d.with_day(1).unwrap().with_month(1).unwrap(),
    };
    let h = if let Unit::Hour = u { t.hour() } else { 0 };
    d.and_hms_opt(h, 0, 0).unwrap().format("%Y-%m-%dT%H:%M:%S").to_string()
}
/// all intervals that a span of time touches
pub fn buckets(u: &Unit, from: i64, to: i64) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut t = from;
    loop {
        let b = bucket(u, t.min(to));
        if out.last() != Some(&b) {
            out.push(b);
        }
        if t >= to {
            return out;
        }
        t += HOUR;
    }
}
fn unit(u: &Unit) -> i64 {
    match u {
        Unit::Hour => HOUR,
        Unit::Day => DAY,
        _ => 7 * DAY,
    }
}
fn back(now: i64, n: i64, u: &Unit) -> i64 {
    match u {
        Unit::Hour | Unit::Day | Unit::Week => now - n * unit(u),
        Unit::Month => (at(now) - chrono::Months::new(n as u32)).timestamp_millis(),
        Unit::Year => (at(now) - chrono::Months::new(12 * n as u32)).timestamp_millis(),
    }
}
pub fn time(r: &mut Rng, u: &Unit, now: i64) -> (QueryTime, i64, i64) {
    match r.below(4) {
        0 => {
            let from = T0 + r.range(-2, 6) * DAY + r.range(0, 3) * 7 * HOUR;
            (QueryTime::From(at(from)), from, now)
        }
        1 => {
            let (n, v) = match u {
                Unit::Hour => (r.range(1, 72), Unit::Hour),
                _ => (r.range(1, 8), u.clone()),
            };
            let (n, v) = if matches!(v, Unit::Month | Unit::Year) { (r.range(1, 3), v) } else { (n, v) };
            (QueryTime::Last { last: n, unit: v.clone() }, back(now, n, &v), now)
        }
        _ => {
            let from = T0 + r.range(-1, 5) * DAY + r.range(0, 3) * 5 * HOUR;
            let to = from + if let Unit::Hour = u { r.range(0, 60) * HOUR } else { r.range(0, 9) * DAY } + r.range(-1, 2).max(0);
            (QueryTime::Between { from: at(from), to: at(to) }, from, to)
        }
    }
}
fn f2(a: &Agg) -> F2 {
    match a {
        Agg::Count => F2::Count,
        Agg::Sum => F2::Sum,
        Agg::Min => F2::Min,
        Agg::Max => F2::Max,
        Agg::Avg => F2::Avg,
    }
}
fn f2p(a: &Per) -> F2 {
    match a {
        Per::Count => F2::Count,
        Per::Sum => F2::Sum,
        Per::Min => F2::Min,
        Per::Max => F2::Max,
        Per::Avg => F2::Avg,
    }
}
const AGGS: [Agg; 5] = [Agg::Count, Agg::Sum, Agg::Min, Agg::Max, Agg::Avg];
const PERS: [Per; 5] = [Per::Count, Per::Sum, Per::Min, Per::Max, Per::Avg];
pub fn query(r: &mut Rng, p: &Proj) -> (es::Query, Option<usize>) {
    let nums: Vec<usize> = (0..p.ne).filter(|i| !matches!(p.props[*i].ty, DType::String | DType::Boolean | DType::Timestamp)).collect();
    match r.below(if nums.is_empty() { 4 } else { 7 }) {
        0 => (es::Query::CountEvents, None),
        1 => (es::Query::CountUniqueGroups, None),
        2 => (es::Query::DailyActiveGroups, None),
        3 => (es::Query::CountPerGroup { aggregate: r.pick(&AGGS).clone() }, None),
        4 => {
            let i = *r.pick(&nums);
            (
                es::Query::AggregatePropertyPerGroup {
                    property: p.props[i].r(),
                    aggregate_per_group: r.pick(&PERS).clone(),
                    aggregate: r.pick(&AGGS).clone(),
                },
                Some(i),
            )
        }
        _ => {
            let i = *r.pick(&nums);
            (es::Query::AggregateProperty { property: p.props[i].r(), aggregate: r.pick(&AGGS).clone() }, Some(i))
        }
    }
}
/// the answer for the rows of one cell
fn answer(q: &es::Query, prop: Option<usize>, group_id: usize, rows: &[&Row]) -> Option<X> {
    let mut users: BTreeMap<i64, Vec<&Row>> = BTreeMap::new();
    for r in rows {
        let of = if group_id == 0 { r.user } else { r.company };
        if of > 0 {
            users.entry(of).or_default().push(r);
        }
    }
    let int = |n: usize| X::I(n as i128 * MUL, 1);
    let of = |rows: &[&Row]| -> Vec<X> { rows.iter().filter_map(|r| agg::num(&r.vals[prop.unwrap()])).collect() };
    // rows of nobody are counted as events only
    if users.is_empty() && !matches!(q, es::Query::CountEvents | es::Query::AggregateProperty { .. }) {
        return None;
    }
    match q {
        es::Query::CountEvents => Some(int(rows.len())),
        es::Query::CountUniqueGroups | es::Query::DailyActiveGroups => Some(int(users.len())),
        es::Query::CountPerGroup { aggregate } => agg::fold(&f2(aggregate), &users.values().map(|v| int(v.len())).collect::<Vec<_>>()),
        es::Query::AggregateProperty { aggregate, .. } => {
            let v = of(rows);
            if v.is_empty() { None } else { agg::fold(&f2(aggregate), &v) }
        }
        es::Query::AggregatePropertyPerGroup { aggregate, aggregate_per_group, .. } => {
            let per: Vec<X> = users
                .values()
                .filter_map(|v| {
                    let v = of(v);
                    if v.is_empty() { None } else { agg::fold(&f2p(aggregate_per_group), &v) }
                })
                .collect();
            if per.is_empty() { None } else { agg::fold(&f2(aggregate), &per) }
        }
        _ => unreachable!(),
    }
}
/// as `agg::same`; the results of all the queries of a request share a column, some of them as
/// floating point numbers
fn same(got: &V, want: &Option<X>) -> bool {
    match (got, want) {
        // more digits than a result has room for
        (_, Some(w)) if agg::f64_of(w).abs() >= 1e12 => true,
        (V::Dec(g), Some(w)) => {
            let (g, w) = (*g as f64 / MUL as f64, agg::f64_of(w));
            (g - w).abs() <= 1e-9 * w.abs().max(1.0)
        }
        _ => agg::same(got, want),
    }
}
struct Ev {
    e: EventRef,
    fs: Vec<F>,
    by: Vec<usize>,
    qs: Vec<(es::Query, Option<usize>)>,
}
fn optional<T>(r: &mut Rng, v: Vec<T>) -> Option<Vec<T>> {
    if v.is_empty() && r.bool() { None } else { Some(v) }
}
pub fn some_filters(r: &mut Rng, p: &Proj, max: usize) -> Vec<F> {
    (0..r.below(max + 1))
        .map(|_| {
            // filters that leave something to aggregate
            let mut f = filter(r, &p.props[..p.ne], true);
            for _ in 0..3 {
                let n = p.rows.iter().filter(|x| f.keeps(&x.vals[f.prop])).count();
                if n * 3 >= p.rows.len() {
                    break;
                }
                f = filter(r, &p.props[..p.ne], true);
            }
            f
        })
        .collect()
}
fn breakdowns(r: &mut Rng, p: &Proj, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for _ in 0..r.below(max + 1) {
        // not by what the plan itself groups by
        let i = r.below(p.own + 2);
        let i = if i < p.own { i } else { p.ne - 1 - (i - p.own) };
        if !v.contains(&i) {
            v.push(i);
        }
    }
    v
}
pub fn segmentation(m: &mut Mon, r: &mut Rng, run: &Run) {
    let worlds = m.n(5, 400);
    for wi in 0..worlds {
        if !m.within(35, 1200) {
            break;
        }
        let w = World::new(r, &Shape { projects: 2, rows: 90, recs: 2, props: 12, twins: false });
        for _ in 0..45 {
            if !m.within(35, 1200) {
                break;
            }
            let p = &w.projs[r.below(2)];
            one_segmentation(m, r, run, &w, p);
            if m.violated() {
                return;
            }
        }
        m.observed((wi, "world"), true);
    }
}
pub struct Seg {
    u: Unit,
    pub now: i64,
    from: i64,
    to: i64,
    group_id: usize,
    global: Vec<F>,
    by: Vec<usize>,
    evs: Vec<Ev>,
    pub req: es::EventSegmentationRequest,
}
pub fn gen_seg(r: &mut Rng, p: &Proj) -> Seg {
    let u = r.pick(&[Unit::Hour, Unit::Day, Unit::Day, Unit::Week, Unit::Month, Unit::Year]).clone();
    let now = T0 + 8 * DAY + r.range(0, 30) * HOUR;
    let (qt, from, to) = time(r, &u, now);
    let group_id = r.below(2);
    let global = some_filters(r, p, 1);
    let by = breakdowns(r, p, 1);
    let evs: Vec<Ev> = (0..1 + r.below(3))
        .map(|_| Ev { e: p.any_event(r), fs: some_filters(r, p, 2), by: breakdowns(r, p, 1), qs: (0..1 + r.below(3)).map(|_| query(r, p)).collect() })
        .collect();
    let bd = |v: &[usize]| v.iter().map(|i| Breakdown::Property(p.props[*i].r())).collect::<Vec<_>>();
    let req = es::EventSegmentationRequest {
        time: qt,
        group_id,
        interval_unit: u.clone(),
        chart_type: es::ChartType::Line,
        analysis: es::Analysis::Linear,
        compare: None,
        events: evs
            .iter()
            .map(|e| es::Event {
                event: e.e.clone(),
                filters: optional(r, e.fs.iter().map(|f| f.req()).collect()),
                breakdowns: optional(r, bd(&e.by)),
                queries: e.qs.iter().map(|(q, _)| es::NamedQuery::new(q.clone(), None)).collect(),
            })
            .collect(),
        filters: optional(r, global.iter().map(|f| f.req()).collect()),
        breakdowns: optional(r, bd(&by)),
        segments: None,
    };
    Seg { u, now, from, to, group_id, global, by, evs, req }
}
fn one_segmentation(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let Seg { u, now, from, to, group_id, global, by, evs, req } = gen_seg(r, p);
    let shows = |fs: &[F]| fs.iter().map(|f| f.show()).collect::<Vec<_>>();
    let names = |v: &[usize]| v.iter().map(|i| format!("{:?} {:?} {:?}", p.props[*i].r(), p.props[*i].ty, p.props[*i].dict)).collect::<Vec<_>>();
    let desc = || {
        format!(
            "customs {} time {:?} by {u:?} of group {group_id} global {:?} by {:?} events {:?}",
            p.defs(),
            req.time,
            shows(&global),
            names(&by),
            evs.iter().map(|e| format!("{:?} {:?} by {:?}: {:?}", e.e, shows(&e.fs), names(&e.by), e.qs.iter().map(|q| &q.0).collect::<Vec<_>>())).collect::<Vec<_>>()
        )
    };
    // expected columns
    let mut dims: Vec<usize> = vec![];
    for i in evs.iter().flat_map(|e| e.by.iter()).chain(by.iter()) {
        if !dims.contains(i) {
            dims.push(*i);
        }
    }
    let times = buckets(&u, from, to);
    // expected rows: (event, dims, formula) -> the values per interval
    let mut want: Vec<(String, Vec<Option<X>>)> = vec![];
    let mut keys = 0;
    let mut cells_n = 0u64;
    for e in &evs {
        let rows: Vec<&Row> = p
            .rows
            .iter()
            .filter(|x| x.ts >= from && x.ts <= to && p.event_keeps(&e.e, x) && p.all_keep(&e.fs, &x.vals) && p.all_keep(&global, &x.vals))
            .collect();
        let mut groups: BTreeMap<Vec<String>, BTreeMap<String, Vec<&Row>>> = BTreeMap::new();
        for x in rows {
            let key = dims.iter().map(|i| if e.by.contains(i) || by.contains(i) { x.vals[*i].s() } else { V::Null.s() }).collect::<Vec<_>>();
            groups.entry(key).or_default().entry(bucket(&u, x.ts)).or_default().push(x);
        }
        // the 51st row of a breakdown value is cut off
        keys = keys.max(groups.len() * e.qs.len());
        for (key, bs) in groups {
            for (q, prop) in &e.qs {
                let vals: Vec<Option<X>> = times
                    .iter()
                    .map(|t| {
                        bs.get(t).and_then(|rows| {
                            cells_n += 1;
                            answer(q, *prop, group_id, rows)
                        })
                    })
                    .collect();
                want.push((format!("{}|{}|{}", V::Str(e.e.name()).s(), key.join("|"), V::Str(q.name()).s()), vals));
            }
        }
    }
    if keys > 50 {
        return;
    }
    for e in &evs {
        for (q, i) in &e.qs {
            m.count(&format!("queries {}", format!("{q:?}").split([' ', '{']).next().unwrap()), 1);
            m.observed(format!("{} {:?} {u:?} {} {}", q.name().split('(').next().unwrap(), i.map(|i| p.props[i].ty.clone()), dims.len(), evs.len()), true);
        }
    }
    m.count("requests", 1);
    m.count("cells expected", cells_n);
    let got = (|| {
        let req = guarded(|| query::event_segmentation::fix_request(&w.md, p.id, req.clone())).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
        guard(run, query::event_segmentation::EventSegmentationProvider::new(w.md.clone(), w.db.clone()).event_segmentation(ctx(p, now), req))
    })();
    let t = match got {
        Err(e) => {
            m.violation(&format!("segmentation fails: {}", kind(&e)), format!("{}: {e}", desc()), json!({}));
            return;
        }
        Ok(t) => t,
    };
    let n = t.columns.first().map(|c| c.data.len()).unwrap_or(0);
    let cols: Vec<&str> = t.columns.iter().map(|c| c.name.as_str()).collect();
    let at_col = |name: &str| t.columns.iter().find(|c| c.name == name);
    // columns
    let mut dim_names: Vec<String> = vec![];
    for i in &dims {
        let base = &p.props[*i].name;
        let found = dims.iter().take_while(|j| *j != i).filter(|j| p.props[**j].name == *base).count();
        dim_names.push(if found == 0 { base.clone() } else { format!("{base} {}", found + 1) });
    }
    for c in ["Event", "Formula"].iter().copied().chain(dim_names.iter().map(|s| s.as_str())).chain(times.iter().map(|s| s.as_str())) {
        if at_col(c).is_none() {
            m.violation("segmentation: a column is missing", format!("{}: no {c} in {cols:?}", desc()), json!({}));
            return;
        }
    }
    let mut got: Vec<(String, Vec<V>)> = vec![];
    for i in 0..n {
        let c = |name: &str| cell(&at_col(name).unwrap().data, i);
        let key = format!("{}|{}|{}", c("Event").s(), dim_names.iter().map(|d| c(d).s()).collect::<Vec<_>>().join("|"), c("Formula").s());
        got.push((key, times.iter().map(|t| c(t)).collect()));
        // intervals nobody asked for stay empty
        for col in &t.columns {
            let is_time = col.name.len() == 19 && col.name.as_bytes()[10] == b'T';
            if is_time && !times.contains(&col.name) && cell(&col.data, i) != V::Null {
                m.violation("segmentation: a value outside the time", format!("{}: {} holds {:?}", desc(), col.name, cell(&col.data, i)), json!({}));
            }
        }
    }
    let mut left: Vec<(String, Vec<Option<X>>)> = want.clone();
    for (k, vals) in &got {
        match left.iter().position(|(wk, wv)| wk == k && vals.iter().zip(wv).all(|(g, x)| same(g, x))) {
            Some(i) => {
                left.remove(i);
            }
            None if vals.iter().all(|v| *v == V::Null) => {}
            None => {
                let near: Vec<_> = want.iter().filter(|x| x.0 == *k).collect();
                m.violation("segmentation", format!("got {k}: {:?}; want {near:?} over {times:?}: {}", vals.iter().map(|v| v.s()).collect::<Vec<_>>(), desc()), json!({}));
                return;
            }
        }
    }
    if let Some(x) = left.iter().find(|x| x.1.iter().any(|v| !same(&V::Null, v))) {
        m.violation("segmentation: a row is missing", format!("no row {x:?} over {times:?} in {got:?}: {}", desc()), json!({}));
    }
    m.count("rows compared", got.len() as u64);
    let _ = DataType::Null;
}
