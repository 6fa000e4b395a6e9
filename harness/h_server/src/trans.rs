//! What requests mean: the request kept inside says what the request sent says, and is sent back so.
use std::time::Duration;
use std::time::Instant;

use common::event_segmentation as es;
use common::funnel as fu;
use common::query as q;
use datafusion_common::ScalarValue;
use metadata::reports::Query as RQ;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value as Json;

use crate::perm::short;
use crate::server::Server;

// ---------------------------------------------------------------- requests of any kind
const UNITS: [&str; 5] = ["hour", "day", "week", "month", "year"];
const OPS: [&str; 14] =
    ["eq", "neq", "gt", "gte", "lt", "lte", "true", "false", "exists", "empty", "regex", "like", "notLike", "notRegex"];
fn text(r: &mut Rng) -> String {
    match r.range(0, 6) {
        0 => r.string(),
        1 => String::new(),
        2 => "Caf\u{e9} \u{4e16}\u{1f600}".to_string(),
        3 => "a.b \"c\" \\ /".to_string(),
        _ => r.ident(),
    }
}
fn when(r: &mut Rng) -> Json {
    let s = r.range(-62_000_000_000, 250_000_000_000);
    let s = if r.chance(2, 3) { r.range(1_500_000_000, 1_900_000_000) } else { s };
    let n = *r.pick(&[0u32, 0, 5_000_000, 999_000_000, 123_456_000]);
    json!(chrono::DateTime::from_timestamp(s, n).unwrap().to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true))
}
pub fn value(r: &mut Rng) -> Json {
    match r.range(0, 9) {
        0 => json!(r.bool()),
        1 => json!(r.i64_edge()),
        2 => json!(*r.pick(&[u64::MAX, i64::MAX as u64 + 1, 1 << 53, (1 << 53) + 1])),
        3 => json!(*r.pick(&[0.5, -0.25, 1e-7, 12345.678, 1e15, 0.1, -3.0, 5.0, 1e-16, 99999999.125])),
        4 => json!(r.range(-1000, 1000)),
        5 => json!(r.range(-100000, 100000) as f64 / 8.0),
        6 => json!(r.range(-100000, 100000) as f64 / 100.0),
        _ => json!(text(r)),
    }
}
fn values(r: &mut Rng) -> Json {
    json!((0..r.range(0, 3)).map(|_| value(r)).collect::<Vec<_>>())
}
pub fn property(r: &mut Rng) -> Json {
    match r.range(0, 4) {
        0 | 1 => json!({"propertyType": "event", "propertyName": text(r)}),
        2 | 3 => json!({"propertyType": "group", "propertyName": text(r), "group": r.range(0, 7)}),
        _ => json!({"propertyType": "custom", "propertyId": r.range(0, 1 << 40)}),
    }
}
pub fn event(r: &mut Rng) -> Json {
    if r.chance(3, 4) {
        json!({"eventType": "regular", "eventName": text(r)})
    } else {
        json!({"eventType": "custom", "eventId": r.range(0, 1 << 40)})
    }
}
pub fn with(mut a: Json, b: Json) -> Json {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}
pub fn filter(r: &mut Rng) -> Json {
    let mut f = with(json!({"type": "property", "operation": *r.pick(&OPS)}), property(r));
    if r.chance(4, 5) {
        f["value"] = values(r);
    }
    f
}
pub fn some(r: &mut Rng, n: i64, mut f: impl FnMut(&mut Rng) -> Json) -> Json {
    Json::Array((0..r.range(0, n)).map(|_| f(r)).collect())
}
pub fn grouped(r: &mut Rng) -> Json {
    let n = if r.chance(1, 6) { r.range(2, 3) } else { r.range(0, 1) };
    let groups: Vec<Json> = (0..n)
        .map(|_| {
            let mut g = json!({"filters": some(r, 3, filter)});
            if r.bool() {
                g["filtersCondition"] = json!(if r.chance(1, 4) { "or" } else { "and" });
            }
            g
        })
        .collect();
    let mut g = json!({"groups": groups});
    if r.bool() {
        g["groupsCondition"] = json!(*r.pick(&["and", "or"]));
    }
    g
}
pub fn time(r: &mut Rng) -> Json {
    match r.range(0, 3) {
        0 => json!({"type": "between", "from": when(r), "to": when(r)}),
        1 => json!({"type": "from", "from": when(r)}),
        _ => json!({"type": "last", "last": r.range(0, 1000), "unit": *r.pick(&UNITS)}),
    }
}
fn segment_time(r: &mut Rng) -> Json {
    match r.range(0, 4) {
        0 => json!({"type": "between", "from": when(r), "to": when(r)}),
        1 => json!({"type": "from", "from": when(r)}),
        2 => json!({"type": "last", "last": r.range(0, 1000), "unit": *r.pick(&UNITS)}),
        3 => json!({"type": "afterFirstUse", "within": r.range(0, 1000), "unit": *r.pick(&UNITS)}),
        _ => json!({"type": "windowEach", "n": r.range(0, 1000), "unit": *r.pick(&UNITS)}),
    }
}
fn condition(r: &mut Rng) -> Json {
    match r.range(0, 3) {
        0 => json!({"type": "hasPropertyValue", "property": property(r), "operation": *r.pick(&OPS), "value": values(r)}),
        1 => json!({"type": "hadPropertyValue", "property": property(r), "operation": *r.pick(&OPS), "value": values(r), "time": segment_time(r)}),
        _ => {
            let op = *r.pick(&OPS);
            let aggregate = match r.range(0, 3) {
                0 => json!({"type": "count", "operation": op, "value": r.range(-5, 1000), "time": segment_time(r)}),
                1 => with(json!({"type": "relativeCount", "operation": op, "filters": some(r, 2, filter), "time": segment_time(r)}), event(r)),
                2 => with(
                    json!({
                        "type": "aggregateProperty", "operation": op, "value": value(r), "time": segment_time(r),
                        "aggregate": *r.pick(&["min", "max", "sum", "avg", "median", "distinctCount", "percentile25", "percentile75", "percentile90", "percentile99"])
                    }),
                    property(r),
                ),
                _ => json!({"type": "historicalCount", "operation": op, "value": r.range(0, 1000), "time": segment_time(r)}),
            };
            with(json!({"type": "didEvent", "filters": some(r, 2, filter), "aggregate": aggregate}), event(r))
        }
    }
}
fn segment(r: &mut Rng) -> Json {
    json!({"name": text(r), "conditions": (0..r.range(0, 2)).map(|_| some(r, 2, condition)).collect::<Vec<_>>()})
}
fn breakdown(r: &mut Rng) -> Json {
    with(json!({"type": "property"}), property(r))
}
const AGGS: [&str; 5] = ["count", "sum", "min", "max", "avg"];
fn query(r: &mut Rng) -> Json {
    match r.range(0, 9) {
        0 => json!({"type": "countEvents"}),
        1 => json!({"type": "countUniqueGroups"}),
        2 => json!({"type": "dailyActiveGroups"}),
        3 => json!({"type": "weeklyActiveGroups"}),
        4 => json!({"type": "monthlyActiveGroups"}),
        5 => json!({"type": "countPerGroup", "aggregate": *r.pick(&AGGS)}),
        6 | 7 => with(
            json!({"type": "aggregatePropertyPerGroup", "aggregatePerGroup": *r.pick(&AGGS), "aggregate": *r.pick(&AGGS)}),
            property(r),
        ),
        8 => with(json!({"type": "aggregateProperty", "aggregate": *r.pick(&AGGS)}), property(r)),
        _ => json!({"type": "formula", "formula": text(r)}),
    }
}
pub fn maybe(r: &mut Rng, o: &mut Json, key: &str, v: impl FnOnce(&mut Rng) -> Json) {
    match r.range(0, 5) {
        0 | 1 => {}
        2 => o[key] = Json::Null,
        _ => o[key] = v(r),
    }
}
pub fn segmentation(r: &mut Rng) -> Json {
    let events: Vec<Json> = (0..r.range(1, 4))
        .map(|_| {
            let mut e = with(json!({"queries": (0..r.range(1, 4)).map(|_| query(r)).collect::<Vec<_>>()}), event(r));
            maybe(r, &mut e, "filters", |r| some(r, 3, filter));
            maybe(r, &mut e, "breakdowns", |r| some(r, 2, breakdown));
            e
        })
        .collect();
    let mut o = json!({
        "type": "eventSegmentation",
        "time": time(r), "group": r.range(0, 7), "intervalUnit": *r.pick(&UNITS),
        "chartType": *r.pick(&["line", "column", "pie"]),
        "analysis": match r.range(0, 3) {
            0 => json!({"type": "linear"}),
            1 => json!({"type": "rollingAverage", "window": r.range(0, 50), "unit": *r.pick(&UNITS)}),
            2 => json!({"type": "logarithmic"}),
            _ => json!({"type": "cumulative"}),
        },
        "events": events
    });
    maybe(r, &mut o, "compare", |r| json!({"offset": r.range(0, 100), "unit": *r.pick(&UNITS)}));
    maybe(r, &mut o, "filters", grouped);
    maybe(r, &mut o, "breakdowns", |r| some(r, 3, breakdown));
    maybe(r, &mut o, "segments", |r| some(r, 2, segment));
    o
}
pub fn funnel(r: &mut Rng) -> Json {
    let funnel_event = |r: &mut Rng| {
        let mut e = event(r);
        maybe(r, &mut e, "filters", |r| some(r, 3, filter));
        e
    };
    let steps: Vec<Json> = (0..r.range(1, 5))
        .map(|_| {
            json!({
                "events": (0..r.range(1, 3)).map(|_| funnel_event(r)).collect::<Vec<_>>(),
                "order": if r.bool() { json!({"type": "exact"}) } else {
                    json!({"type": "any", "steps": (0..r.range(0, 2)).map(|_| json!([r.range(0, 5), r.range(0, 5)])).collect::<Vec<_>>()})
                }
            })
        })
        .collect();
    let mut o = json!({
        "type": "funnel",
        "time": time(r), "group": r.range(0, 7), "steps": steps,
        "timeWindow": {"n": r.range(0, 1000), "unit": *r.pick(&["hour", "day", "week", "month", "year", "session"])},
        "chartType": match r.range(0, 3) {
            0 => json!({"type": "steps"}),
            1 => json!({"type": "conversionOverTime", "intervalUnit": *r.pick(&UNITS)}),
            2 => json!({"type": "timeToConvert", "intervalUnit": *r.pick(&UNITS), "minInterval": r.range(-5, 100), "maxInterval": r.range(0, 1000)}),
            _ => json!({"type": "frequency"}),
        },
        "count": *r.pick(&["unique", "nonUnique", "session"])
    });
    maybe(r, &mut o, "filter", |r| match r.range(0, 2) {
        0 => json!({"type": "dropOffOnAnyStep"}),
        1 => json!({"type": "dropOffOnStep", "step": r.range(0, 5)}),
        _ => json!({"type": "timeToConvert", "from": r.range(0, 100), "to": r.range(0, 1000)}),
    });
    maybe(r, &mut o, "touch", |r| match r.range(0, 2) {
        0 => json!({"type": "first"}),
        1 => json!({"type": "last"}),
        _ => json!({"type": "step", "step": r.range(0, 5)}),
    });
    maybe(r, &mut o, "holdingConstants", |r| some(r, 3, property));
    maybe(r, &mut o, "exclude", |r| {
        some(r, 2, |r| {
            let mut e = event(r);
            maybe(r, &mut e, "filters", |r| some(r, 2, filter));
            maybe(r, &mut e, "steps", |r| {
                if r.bool() { json!({"type": "all"}) } else { json!({"type": "between", "from": r.range(1, 5), "to": r.range(1, 5)}) }
            });
            e
        })
    });
    maybe(r, &mut o, "breakdowns", |r| some(r, 3, breakdown));
    maybe(r, &mut o, "segments", |r| some(r, 2, segment));
    maybe(r, &mut o, "filters", grouped);
    o
}
// ---------------------------------------------------------------- one form of what is the same
fn number(n: &serde_json::Number) -> Json {
    if n.is_i64() || n.is_u64() {
        return Json::String(format!("#{n}"));
    }
    let f = n.as_f64().unwrap();
    if f == f.trunc() && f.abs() < 9e15 {
        return Json::String(format!("#{}", f as i64));
    }
    // what decimals are exact to
    Json::String(format!("#{:.14e}", f))
}
/// Absent, null and empty lists are the same but for what always is a list; numbers by value, times by moment.
pub fn norm(v: &Json) -> Json {
    match v {
        Json::Array(a) => Json::Array(a.iter().map(norm).collect()),
        Json::Object(o) => {
            let mut out = serde_json::Map::new();
            for (k, v) in o {
                let list = matches!(k.as_str(), "filters" | "breakdowns" | "segments" | "holdingConstants" | "exclude" | "value");
                if v.is_null() || (list && v.as_array().map(|a| a.is_empty()).unwrap_or(false)) {
                    continue;
                }
                let v = match (k.as_str(), v) {
                    ("from" | "to", Json::String(s)) => match chrono::DateTime::parse_from_rfc3339(s) {
                        Ok(t) => json!(format!("@{}", t.timestamp_micros())),
                        Err(_) => json!(s),
                    },
                    _ => norm(v),
                };
                out.insert(k.clone(), v);
            }
            // a request without filters
            if let Some(g) = out.get("filters").and_then(|f| f.get("groups")) {
                let none = g.as_array().unwrap().iter().all(|g| g.get("filters").is_none());
                if none {
                    out.remove("filters");
                }
            }
            if let Some(Json::Object(g)) = out.get_mut("filters") {
                if let Some(Json::Array(groups)) = g.get_mut("groups") {
                    for x in groups.iter_mut() {
                        let x = x.as_object_mut().unwrap();
                        if x.get("filtersCondition") == Some(&json!("and")) {
                            x.remove("filtersCondition");
                        }
                        // of one filter, all are as good as any
                        if x.get("filters").and_then(|f| f.as_array()).map(|f| f.len() < 2).unwrap_or(true) {
                            x.remove("filtersCondition");
                        }
                    }
                    if groups.len() < 2 {
                        g.remove("groupsCondition");
                    }
                }
            }
            Json::Object(out)
        }
        Json::Number(n) => number(n),
        other => other.clone(),
    }
}
// ---------------------------------------------------------------- what the request inside says
fn j_scalar(v: &ScalarValue) -> Json {
    match v {
        ScalarValue::Boolean(Some(b)) => json!(b),
        ScalarValue::Utf8(Some(s)) => json!(s),
        ScalarValue::Decimal128(Some(m), _, s) => {
            let ten = 10i128.pow(*s as u32);
            if m % ten == 0 {
                let v = m / ten;
                match (i64::try_from(v), u64::try_from(v)) {
                    (Ok(v), _) => json!(v),
                    (_, Ok(v)) => json!(v),
                    _ => json!(v as f64),
                }
            } else {
                // by the text of the number
                let (sign, m) = if *m < 0 { ("-", -*m) } else { ("", *m) };
                let t = format!("{sign}{}.{:0w$}", m / ten, m % ten, w = *s as usize);
                json!(t.parse::<f64>().unwrap())
            }
        }
        other => json!(format!("?{other:?}")),
    }
}
fn j_property(p: &q::PropertyRef) -> Json {
    match p {
        q::PropertyRef::Group(n, g) => json!({"propertyType": "group", "propertyName": n, "group": g}),
        q::PropertyRef::Event(n) => json!({"propertyType": "event", "propertyName": n}),
        q::PropertyRef::Custom(i) => json!({"propertyType": "custom", "propertyId": i}),
        #[allow(unreachable_patterns)]
        other => json!(format!("?{other:?}")),
    }
}
fn j_event(e: &q::EventRef) -> Json {
    match e {
        q::EventRef::RegularName(n) => json!({"eventType": "regular", "eventName": n}),
        q::EventRef::Custom(i) => json!({"eventType": "custom", "eventId": i}),
        other => json!({"eventType": format!("?{other:?}")}),
    }
}
fn j_op(o: &q::PropValueOperation) -> Json {
    use q::PropValueOperation as O;
    json!(match o {
        O::Eq => "eq",
        O::Neq => "neq",
        O::Gt => "gt",
        O::Gte => "gte",
        O::Lt => "lt",
        O::Lte => "lte",
        O::True => "true",
        O::False => "false",
        O::Exists => "exists",
        O::Empty => "empty",
        O::Regex => "regex",
        O::Like => "like",
        O::NotLike => "notLike",
        O::NotRegex => "notRegex",
    })
}
fn j_values(v: &Option<Vec<ScalarValue>>) -> Json {
    match v {
        None => Json::Null,
        Some(v) => Json::Array(v.iter().map(j_scalar).collect()),
    }
}
fn j_filter(f: &q::PropValueFilter) -> Json {
    match f {
        q::PropValueFilter::Property { property, operation, value } => {
            with(json!({"type": "property", "operation": j_op(operation), "value": j_values(value)}), j_property(property))
        }
    }
}
fn j_list<T>(v: &Option<Vec<T>>, f: impl Fn(&T) -> Json) -> Json {
    match v {
        None => Json::Null,
        Some(v) => Json::Array(v.iter().map(f).collect()),
    }
}
fn j_grouped(v: &Option<Vec<q::PropValueFilter>>) -> Json {
    match v {
        None => Json::Null,
        Some(_) => json!({"groups": [{"filters": j_list(v, j_filter)}]}),
    }
}
fn j_unit(u: &q::TimeIntervalUnit) -> Json {
    use q::TimeIntervalUnit as U;
    json!(match u {
        U::Hour => "hour",
        U::Day => "day",
        U::Week => "week",
        U::Month => "month",
        U::Year => "year",
    })
}
fn j_at(t: &chrono::DateTime<chrono::Utc>) -> Json {
    json!(t.to_rfc3339_opts(chrono::SecondsFormat::Nanos, true))
}
fn j_time(t: &q::QueryTime) -> Json {
    match t {
        q::QueryTime::Between { from, to } => json!({"type": "between", "from": j_at(from), "to": j_at(to)}),
        q::QueryTime::From(from) => json!({"type": "from", "from": j_at(from)}),
        q::QueryTime::Last { last, unit } => json!({"type": "last", "last": last, "unit": j_unit(unit)}),
    }
}
fn j_segment_time(t: &q::SegmentTime) -> Json {
    match t {
        q::SegmentTime::Between { from, to } => json!({"type": "between", "from": j_at(from), "to": j_at(to)}),
        q::SegmentTime::From(from) => json!({"type": "from", "from": j_at(from)}),
        q::SegmentTime::Last { n, unit } => json!({"type": "last", "last": n, "unit": j_unit(unit)}),
        q::SegmentTime::AfterFirstUse { within, unit } => json!({"type": "afterFirstUse", "within": within, "unit": j_unit(unit)}),
        q::SegmentTime::Each { n, unit } => json!({"type": "windowEach", "n": n, "unit": j_unit(unit)}),
    }
}
fn j_condition(c: &q::SegmentCondition) -> Json {
    use q::DidEventAggregate as D;
    use q::QueryAggregate as A;
    use q::SegmentCondition as C;
    match c {
        C::HasPropertyValue { property, operation, value } => {
            json!({"type": "hasPropertyValue", "property": j_property(property), "operation": j_op(operation), "value": j_values(value)})
        }
        C::HadPropertyValue { property, operation, value, time } => json!({
            "type": "hadPropertyValue", "property": j_property(property), "operation": j_op(operation), "value": j_values(value),
            "time": j_segment_time(time)
        }),
        C::DidEvent { event, filters, aggregate } => {
            let aggregate = match aggregate {
                D::Count { operation, value, time } => {
                    json!({"type": "count", "operation": j_op(operation), "value": value, "time": j_segment_time(time)})
                }
                D::RelativeCount { event, operation, filters, time } => with(
                    json!({"type": "relativeCount", "operation": j_op(operation), "filters": j_list(filters, j_filter), "time": j_segment_time(time)}),
                    j_event(event),
                ),
                D::AggregateProperty { property, aggregate, operation, value, time } => with(
                    json!({
                        "type": "aggregateProperty", "operation": j_op(operation), "value": value.as_ref().map(j_scalar), "time": j_segment_time(time),
                        "aggregate": match aggregate {
                            A::Min => "min",
                            A::Max => "max",
                            A::Sum => "sum",
                            A::Avg => "avg",
                            A::Median => "median",
                            A::DistinctCount => "distinctCount",
                            A::Percentile25th => "percentile25",
                            A::Percentile75th => "percentile75",
                            A::Percentile90th => "percentile90",
                            A::Percentile99th => "percentile99",
                        }
                    }),
                    j_property(property),
                ),
                D::HistoricalCount { operation, value, time } => {
                    json!({"type": "historicalCount", "operation": j_op(operation), "value": value, "time": j_segment_time(time)})
                }
            };
            with(json!({"type": "didEvent", "filters": j_list(filters, j_filter), "aggregate": aggregate}), j_event(event))
        }
    }
}
fn j_segment(s: &q::Segment) -> Json {
    json!({"name": s.name, "conditions": s.conditions.iter().map(|c| c.iter().map(j_condition).collect::<Vec<_>>()).collect::<Vec<_>>()})
}
fn j_breakdown(b: &q::Breakdown) -> Json {
    match b {
        q::Breakdown::Property(p) => with(json!({"type": "property"}), j_property(p)),
    }
}
fn j_agg(a: &q::AggregateFunction) -> Json {
    use q::AggregateFunction as A;
    json!(match a {
        A::Count => "count",
        A::Sum => "sum",
        A::Min => "min",
        A::Max => "max",
        A::Avg => "avg",
    })
}
fn j_pagg(a: &q::PartitionedAggregateFunction) -> Json {
    use q::PartitionedAggregateFunction as A;
    json!(match a {
        A::Count => "count",
        A::Sum => "sum",
        A::Min => "min",
        A::Max => "max",
        A::Avg => "avg",
    })
}
fn j_query(x: &es::Query) -> Json {
    match x {
        es::Query::CountEvents => json!({"type": "countEvents"}),
        es::Query::CountUniqueGroups => json!({"type": "countUniqueGroups"}),
        es::Query::DailyActiveGroups => json!({"type": "dailyActiveGroups"}),
        es::Query::WeeklyActiveGroups => json!({"type": "weeklyActiveGroups"}),
        es::Query::MonthlyActiveGroups => json!({"type": "monthlyActiveGroups"}),
        es::Query::CountPerGroup { aggregate } => json!({"type": "countPerGroup", "aggregate": j_agg(aggregate)}),
        es::Query::AggregatePropertyPerGroup { property, aggregate_per_group, aggregate } => with(
            json!({"type": "aggregatePropertyPerGroup", "aggregatePerGroup": j_pagg(aggregate_per_group), "aggregate": j_agg(aggregate)}),
            j_property(property),
        ),
        es::Query::AggregateProperty { property, aggregate } => {
            with(json!({"type": "aggregateProperty", "aggregate": j_agg(aggregate)}), j_property(property))
        }
        es::Query::QueryFormula { formula } => json!({"type": "formula", "formula": formula}),
    }
}
fn j_inside(x: &RQ) -> Json {
    match x {
        RQ::EventSegmentation(x) => json!({
            "type": "eventSegmentation",
            "time": j_time(&x.time), "group": x.group_id, "intervalUnit": j_unit(&x.interval_unit),
            "chartType": match x.chart_type {
                es::ChartType::Line => "line",
                es::ChartType::Column => "column",
                es::ChartType::Pie => "pie",
            },
            "analysis": match &x.analysis {
                es::Analysis::Linear => json!({"type": "linear"}),
                es::Analysis::RollingAverage { window, unit } => json!({"type": "rollingAverage", "window": window, "unit": j_unit(unit)}),
                es::Analysis::Logarithmic => json!({"type": "logarithmic"}),
                es::Analysis::Cumulative => json!({"type": "cumulative"}),
            },
            "compare": x.compare.as_ref().map(|c| json!({"offset": c.offset, "unit": j_unit(&c.unit)})),
            "events": x.events.iter().map(|e| with(json!({
                "filters": j_list(&e.filters, j_filter), "breakdowns": j_list(&e.breakdowns, j_breakdown),
                "queries": e.queries.iter().map(|x| j_query(&x.agg)).collect::<Vec<_>>()
            }), j_event(&e.event))).collect::<Vec<_>>(),
            "filters": j_grouped(&x.filters),
            "breakdowns": j_list(&x.breakdowns, j_breakdown),
            "segments": j_list(&x.segments, j_segment),
        }),
        RQ::Funnel(x) => json!({
            "type": "funnel",
            "time": j_time(&x.time), "group": x.group_id,
            "steps": x.steps.iter().map(|s| json!({
                "events": s.events.iter().map(|e| with(json!({"filters": j_list(&e.filters, j_filter)}), j_event(&e.event))).collect::<Vec<_>>(),
                "order": match &s.order {
                    fu::StepOrder::Exact => json!({"type": "exact"}),
                    fu::StepOrder::Any(v) => json!({"type": "any", "steps": v}),
                }
            })).collect::<Vec<_>>(),
            "timeWindow": {"n": x.time_window.n, "unit": match x.time_window.unit {
                fu::TimeIntervalUnitSession::Hour => "hour",
                fu::TimeIntervalUnitSession::Day => "day",
                fu::TimeIntervalUnitSession::Week => "week",
                fu::TimeIntervalUnitSession::Month => "month",
                fu::TimeIntervalUnitSession::Year => "year",
                fu::TimeIntervalUnitSession::Session => "session",
            }},
            "chartType": match &x.chart_type {
                fu::ChartType::Steps => json!({"type": "steps"}),
                fu::ChartType::ConversionOverTime { interval_unit } => json!({"type": "conversionOverTime", "intervalUnit": j_unit(interval_unit)}),
                fu::ChartType::TimeToConvert { interval_unit, min_interval, max_interval } => {
                    json!({"type": "timeToConvert", "intervalUnit": j_unit(interval_unit), "minInterval": min_interval, "maxInterval": max_interval})
                }
                fu::ChartType::Frequency => json!({"type": "frequency"}),
            },
            "count": match x.count {
                fu::Count::Unique => "unique",
                fu::Count::NonUnique => "nonUnique",
                fu::Count::Session => "session",
            },
            "filter": x.filter.as_ref().map(|f| match f {
                fu::Filter::DropOffOnAnyStep => json!({"type": "dropOffOnAnyStep"}),
                fu::Filter::DropOffOnStep(step) => json!({"type": "dropOffOnStep", "step": step}),
                fu::Filter::TimeToConvert(from, to) => json!({"type": "timeToConvert", "from": from, "to": to}),
            }),
            "touch": x.touch.as_ref().map(|f| match f {
                fu::Touch::First => json!({"type": "first"}),
                fu::Touch::Last => json!({"type": "last"}),
                fu::Touch::Step { step } => json!({"type": "step", "step": step}),
            }),
            "holdingConstants": j_list(&x.holding_constants, j_property),
            "exclude": j_list(&x.exclude, |e| with(json!({
                "filters": j_list(&e.filters, j_filter),
                "steps": e.steps.as_ref().map(|s| match s {
                    fu::ExcludeSteps::All => json!({"type": "all"}),
                    fu::ExcludeSteps::Between(from, to) => json!({"type": "between", "from": from + 1, "to": to + 1}),
                })
            }), j_event(&e.event))),
            "breakdowns": j_list(&x.breakdowns, j_breakdown),
            "segments": j_list(&x.segments, j_segment),
            "filters": j_grouped(&x.filters),
        }),
    }
}
/// Where two differ first.
fn differ(a: &Json, b: &Json, at: &str) -> Option<String> {
    match (a, b) {
        (Json::Object(x), Json::Object(y)) => {
            let mut keys: Vec<&String> = x.keys().chain(y.keys()).collect();
            keys.sort();
            keys.dedup();
            keys.into_iter().find_map(|k| differ(x.get(k).unwrap_or(&Json::Null), y.get(k).unwrap_or(&Json::Null), &format!("{at}/{k}")))
        }
        (Json::Array(x), Json::Array(y)) if x.len() == y.len() => (0..x.len()).find_map(|i| differ(&x[i], &y[i], &format!("{at}/[]"))),
        (a, b) if a == b => None,
        _ => Some(format!("{at}: {} became {}", short(&a.to_string()), short(&b.to_string()))),
    }
}
/// Requests whose filters are in more than one group, or joined by "or", lose them (known).
fn known(sent: &Json) -> Option<&'static str> {
    let g = sent.get("filters")?.get("groups")?.as_array()?;
    if g.len() > 1 {
        return Some("filters in several groups");
    }
    if g[0].get("filtersCondition") == Some(&json!("or")) {
        return Some("filters joined by or");
    }
    None
}
/// Searches of group records come in the order asked for.
fn sorted(m: &mut Mon, r: &mut Rng) {
    let s = Server::new();
    let admin = s.admin();
    let org = s.org("o");
    let (pid, sdk) = s.project(org, "p", 60);
    let n = r.range(5, 40);
    let names = ["a text", "a number", "a flag", "a time", "key"];
    for (group, of) in [("company", 1), ("user", 0)] {
        let mut sent: Vec<Json> = vec![];
        for i in 0..n {
            let mut props = json!({"key": format!("k{i}")});
            for name in &names[..4] {
                if i > 0 && r.chance(1, 5) {
                    continue;
                }
                props[*name] = match *name {
                    "a text" => json!(r.ident()),
                    "a number" => json!(r.range(-40, 40) as f64 / 4.0),
                    "a flag" => json!(r.bool()),
                    _ => json!(format!("20{:02}-05-06T07:08:09Z", r.range(10, 30))),
                };
            }
            let b = json!({"group": group, "id": format!("i{i}"), "context": {}, "properties": props});
            let x = s.call("POST", &format!("/api/v1/ingest/{sdk}/identify"), &[("content-type", "application/json")], &b.to_string());
            assert!(x.as_ref().is_ok_and(|x| x.ok()), "harness: {b} {x:?}");
            sent.push(props);
        }
        for _ in 0..8 {
            let name = *r.pick(&names);
            let down = r.bool();
            let refer = |n: &str| json!({"propertyType": "group", "propertyName": n, "group": of});
            let sort = with(refer(name), json!({"direction": if down { "desc" } else { "asc" }}));
            let mut b = json!({"group": of, "sort": sort});
            if r.bool() {
                b["properties"] = if r.chance(1, 3) { json!([refer("key")]) } else { json!([refer("key"), refer(name)]) };
                if name == "key" {
                    b["properties"] = json!([refer("key")]);
                }
            }
            m.count("sorted searches", 1);
            m.observed(mon::hash_of(&format!("{b}{n}")), true);
            let x = match s.api(admin, org, "POST", &format!("/api/v1/projects/{pid}/group-records/search"), &b) {
                Ok(x) if x.ok() => x,
                x => {
                    m.violation("sorted search", format!("P05: {b}: {x:?}"), json!({"body": b}));
                    continue;
                }
            };
            let keys: Vec<String> = x.json["columns"]
                .as_array()
                .and_then(|l| l.iter().find(|c| c["name"] == json!("key")))
                .and_then(|c| c["data"].as_array())
                .map(|l| l.iter().filter_map(|k| k.as_str()).map(|k| k.to_string()).collect())
                .unwrap_or_default();
            let mut all = keys.clone();
            all.sort();
            all.dedup();
            if all.len() != sent.len() || keys.len() != sent.len() {
                m.violation("rows of a sorted search", format!("P05: {b}: {} rows of {}", keys.len(), sent.len()), json!({"body": b, "sent": sent}));
                continue;
            }
            let vals: Vec<&Json> =
                keys.iter().filter_map(|k| sent.iter().find(|p| p["key"] == json!(k))?.get(name)).collect();
            let wrong = vals.windows(2).any(|w| {
                let (a, b) = if down { (w[1], w[0]) } else { (w[0], w[1]) };
                match (a, b) {
                    (Json::Number(a), Json::Number(b)) => a.as_f64() > b.as_f64(),
                    (Json::Bool(a), Json::Bool(b)) => a > b,
                    (a, b) => a.as_str() > b.as_str(),
                }
            });
            if wrong {
                m.violation(&format!("order of a search by {name}"), format!("P05: {b}: comes as {vals:?}"), json!({"body": b, "sent": sent}));
            }
        }
    }
    s.discard();
}
pub fn run(m: &mut Mon, r: &mut Rng, total: usize, secs: (u64, u64)) {
    for _ in 0..if m.thorough() { 200 } else { 8 } {
        let mut r = r.fork();
        sorted(m, &mut r);
    }
    let limit = Duration::from_secs(if !m.thorough() { secs.0 } else { secs.1 });
    let start = Instant::now();
    let total = if !m.thorough() { total } else { total * 20 };
    let s = Server::new();
    let admin = s.admin();
    let org = s.org("o");
    let (pid, _) = s.project(org, "p", 60);
    let base = format!("/api/v1/projects/{pid}");
    let mut kept: Vec<(String, Json)> = vec![];
    for i in 0..total {
        if start.elapsed() > limit {
            m.count("requests left out for time", (total - i) as u64);
            break;
        }
        let fun = r.bool();
        let req = if fun { funnel(r) } else { segmentation(r) };
        let want = norm(&req);
        m.observed(mon::hash_of(&want.to_string()), true);
        m.count("requests translated", 1);
        let input = json!({"request": req});
        let typ = if fun { "funnel" } else { "eventSegmentation" };
        let judge = |m: &mut Mon, what: &str, got: &Json| {
            if let Some(d) = differ(&want, got, "") {
                let place = d.split(':').next().unwrap_or("").to_string();
                let key = match known(&want) {
                    Some(k) if place.starts_with("/filters") => k.to_string(),
                    _ => format!("{what} {place}"),
                };
                m.violation(&key, format!("P05: {what}: {d}"), input.clone());
            }
        };
        // as a report, new or changed, or a bookmark
        let kind = r.range(0, 3);
        let resp = match kind {
            0 => s.api(admin, org, "POST", &format!("{base}/bookmarks"), &json!({"query": req})),
            1 if !kept.is_empty() => {
                let (id, _) = r.pick(&kept).clone();
                s.api(admin, org, "PUT", &format!("{base}/reports/{id}"), &json!({"query": req, "type": typ}))
            }
            _ => s.api(admin, org, "POST", &format!("{base}/reports"), &json!({"name": format!("r{i}"), "type": typ, "query": req})),
        };
        let resp = match resp {
            Ok(p) if p.ok() => p,
            other => {
                m.violation(&format!("{typ} refused"), format!("P05: a {typ} request is answered {}", short(&format!("{other:?}"))), input);
                continue;
            }
        };
        judge(m, "answered", &norm(&resp.json["query"]));
        let (path, inside) = if kind == 0 {
            let id = resp.json["id"].as_str().unwrap_or("").to_string();
            let b = mon::guarded(|| s.md.bookmarks.get_by_id(pid, admin, &id).ok().and_then(|b| b.query));
            (format!("{base}/bookmarks/{id}"), b)
        } else {
            let id = resp.json["id"].as_u64().unwrap_or(0);
            kept.retain(|k| k.0 != id.to_string());
            kept.push((id.to_string(), want.clone()));
            (format!("{base}/reports/{id}"), mon::guarded(|| s.md.reports.get_by_id(pid, id).ok().map(|r| r.query)))
        };
        match inside {
            Ok(Some(x)) => judge(m, "inside", &norm(&j_inside(&x))),
            other => m.violation("not kept", format!("P05: {path} is not kept: {}", other.is_err()), input.clone()),
        }
        match s.api(admin, org, "GET", &path, &Json::Null) {
            Ok(p) if p.ok() => judge(m, "read", &norm(&p.json["query"])),
            other => m.violation("not read", format!("P05: {path}: {}", short(&format!("{other:?}"))), input.clone()),
        }
        // the same without being kept
        let got = mon::guarded(|| {
            let mut x = req.clone();
            x.as_object_mut().unwrap().remove("type");
            if fun {
                None
            } else {
                serde_json::from_value::<platform::event_segmentation::EventSegmentationRequest>(x).ok().map(|x| RQ::EventSegmentation(x.into()))
            }
        });
        match got {
            Ok(Some(x)) => judge(m, "asked", &norm(&j_inside(&x))),
            Ok(None) => {}
            Err(e) => m.violation("failed", format!("P05: {e}"), input.clone()),
        }
        if kept.len() > 40 {
            let (id, want) = kept.remove(r.below(kept.len()));
            // kept while others came and went
            match s.api(admin, org, "GET", &format!("{base}/reports/{id}"), &Json::Null) {
                Ok(p) if p.ok() => {
                    if let (Some(d), None) = (differ(&want, &norm(&p.json["query"]), ""), known(&want)) {
                        m.violation("changed later", format!("P05: report {id}: {d}"), input.clone());
                    }
                }
                other => m.violation("not read", format!("P05: report {id}: {}", short(&format!("{other:?}"))), input.clone()),
            }
            m.count("reports read later", 1);
            let _ = s.api(admin, org, "DELETE", &format!("{base}/reports/{id}"), &Json::Null);
        }
        if i % 50 == 0 {
            m.sample(|| input.clone());
        }
    }
    s.discard();
}
