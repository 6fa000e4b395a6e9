//! What values mean: JSON values of requests inside the engine and back, columns and records as JSON.
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use std::time::Instant;

use arrow::array::*;
use datafusion_common::ScalarValue;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value as Json;

use crate::perm::short;
use crate::server::Server;

/// A decimal number as digits times a power of ten, by its text; no trailing zeros.
pub fn exact(text: &str) -> (i128, i32) {
    let (body, exp) = match text.find(['e', 'E']) {
        Some(i) => (&text[..i], text[i + 1..].parse::<i32>().unwrap()),
        None => (text, 0),
    };
    let (whole, part) = body.split_once('.').unwrap_or((body, ""));
    let mut n: i128 = format!("{whole}{part}").parse().unwrap();
    let mut e = exp - part.len() as i32;
    if n == 0 {
        return (0, 0);
    }
    while n % 10 == 0 {
        n /= 10;
        e += 1;
    }
    (n, e)
}
/// As the number is written: integers by all digits, others by those that tell doubles apart.
fn written(n: &serde_json::Number) -> String {
    if n.is_i64() || n.is_u64() {
        n.to_string()
    } else {
        format!("{:e}", n.as_f64().unwrap())
    }
}
/// Equal, or the nearest double to it.
fn is_same(a: (i128, i32), b: (i128, i32)) -> bool {
    let f = |x: (i128, i32)| format!("{}e{}", x.0, x.1).parse::<f64>().unwrap();
    a == b || {
        let (x, y) = (f(a), f(b));
        (x - y).abs() <= 4.5e-16 * x.abs()
    }
}
/// Integers come back exactly, others to the precision of doubles.
fn same_json(sent: &Json, back: &Json) -> bool {
    match (sent, back) {
        (Json::Number(a), Json::Number(b)) => {
            let whole = !a.is_f64() && !b.is_f64();
            let (a, b) = (exact(&written(a)), exact(&written(b)));
            if whole { a == b } else { is_same(a, b) }
        }
        (a, b) => a == b,
    }
}
fn number(r: &mut Rng) -> Json {
    match r.range(0, 9) {
        0 => json!(r.i64_edge()),
        1 => json!(*r.pick(&[u64::MAX, i64::MAX as u64 + 1, 1u64 << 53, (1 << 53) + 1])),
        2 => json!(*r.pick(&[0.5, -0.25, 12345.678, 1e15, 0.1, -3.0, 5.0, 99999999.125, 0.0, 1e20, 123456789012.5])),
        3 => json!(r.range(-1000, 1000)),
        4 => json!(r.range(-100000, 100000) as f64 / 8.0),
        5 => json!(r.range(-1000000, 1000000) as f64 / 1000.0),
        6 => json!(r.range(-9_999_999_999_999, 9_999_999_999_999) as f64 / 10000.0),
        7 => json!(10f64.powi(r.range(-12, 24) as i32)),
        _ => json!(r.range(-100000, 100000) as f64 / 100.0),
    }
}
fn text(r: &mut Rng) -> String {
    match r.range(0, 7) {
        0 => r.string(),
        1 => String::new(),
        2 => "Caf\u{e9} \u{4e16}\u{1f600}".into(),
        3 => "\"quoted\" \\ / \u{1} \n".into(),
        4 => r.pick(&["null", "true", "12", "1.50", "[]", "{}"]).to_string(),
        _ => r.ident(),
    }
}
fn scalar(r: &mut Rng) -> Json {
    match r.range(0, 5) {
        0 => json!(r.bool()),
        1 | 2 => json!(text(r)),
        _ => number(r),
    }
}
fn unsupported(r: &mut Rng) -> Json {
    match r.range(0, 7) {
        0 => Json::Null,
        1 => json!([]),
        2 => json!([1]),
        3 => json!({}),
        4 => json!({"a": "b"}),
        5 => json!(*r.pick(&[1e300, -1e300, 1e29, -1e40, f64::MAX])),
        6 => json!([null]),
        _ => json!([["a"]]),
    }
}
/// Both ways through the functions that convert values.
fn scalars(m: &mut Mon, r: &mut Rng) {
    let v = scalar(r);
    m.count("values converted", 1);
    let inside = match guarded(|| platform::json_value_to_scalar(&v)) {
        Ok(x) => x,
        Err(e) => {
            m.violation("crash converting a value", format!("{v} crashes: {}", short(&e)), json!({"value": v}));
            return;
        }
    };
    let right = match (&v, &inside) {
        (Json::Bool(a), ScalarValue::Boolean(Some(b))) => a == b,
        (Json::String(a), ScalarValue::Utf8(Some(b))) => a == b,
        (Json::Number(a), ScalarValue::Decimal128(Some(b), _, s)) => {
            let (x, y) = (exact(&written(a)), exact(&format!("{b}e{}", -(*s as i32))));
            if a.is_f64() { is_same(x, y) } else { x == y }
        }
        _ => false,
    };
    m.observed(mon::hash_of(&format!("{v}")), true);
    if !right {
        m.violation("value inside", format!("{v} becomes {inside:?}"), json!({"value": v}));
    }
    match guarded(|| platform::scalar_to_json_value(&inside)) {
        Ok(x) if same_json(&v, &x) => {}
        Ok(x) => m.violation("value back", format!("{v} comes back as {x}"), json!({"value": v})),
        Err(e) => m.violation("crash converting back", format!("{v} crashes on its way back: {}", short(&e)), json!({"value": v})),
    }
}
/// Is `got` the number digits * 10^-scale, rounded to `places` digits after the point (either neighbour
/// at a half)? Judged to 15 digits.
fn rounded(v: i128, scale: i32, places: i32, got: &Json) -> bool {
    let Json::Number(n) = got else { return false };
    let got = exact(&written(n));
    if scale <= places {
        return is_same(got, exact(&format!("{v}e{}", -scale)));
    }
    let Some(unit) = 10i128.checked_pow((scale - places) as u32) else { return got.0 == 0 };
    let (q, rest) = (v / unit, (v % unit).abs());
    let up = q + v.signum();
    let mut ok = vec![];
    if rest * 2 <= unit {
        ok.push(q);
    }
    if rest * 2 >= unit {
        ok.push(up);
    }
    ok.iter().any(|q| is_same(got, exact(&format!("{q}e{}", -places))))
}
/// Columns as the engine hands them over, rendered.
/// A column whose missing places hold something, as those of computed columns may.
fn filled<A, T: arrow::datatypes::ArrowNativeType>(
    l: &[Option<T>],
    something: T,
    new: impl Fn(arrow::buffer::ScalarBuffer<T>, Option<arrow::buffer::NullBuffer>) -> A,
) -> A {
    let values: Vec<T> = l.iter().map(|x| x.unwrap_or(something)).collect();
    let nulls: Vec<bool> = l.iter().map(|x| x.is_some()).collect();
    new(values.into(), if nulls.iter().all(|x| *x) { None } else { Some(nulls.into()) })
}
fn columns(m: &mut Mon, r: &mut Rng) {
    let n = r.range(0, 12) as usize;
    let nulls = r.range(0, 3);
    let mut null = |r: &mut Rng| r.chance(nulls as u32, 6);
    let kind = r.range(0, 13);
    let num = |ok: Vec<Option<String>>| -> Vec<Box<dyn Fn(&Json) -> bool>> {
        ok.into_iter()
            .map(|x| {
                Box::new(move |j: &Json| match (&x, j) {
                    // a missing number is shown as none or as zero
                    (None, Json::Null) => true,
                    (None, Json::Number(n)) => n.as_f64() == Some(0.0),
                    (Some(x), Json::Number(n)) => exact(&written(n)) == exact(x),
                    _ => false,
                }) as Box<dyn Fn(&Json) -> bool>
            })
            .collect()
    };
    macro_rules! ints {
        ($array:ident, $t:ty) => {{
            let l: Vec<Option<$t>> = (0..n)
                .map(|_| {
                    if null(r) {
                        None
                    } else {
                        Some(match r.range(0, 4) {
                            0 => <$t>::MAX,
                            1 => <$t>::MIN,
                            2 => 0,
                            _ => r.i64_edge() as $t,
                        })
                    }
                })
                .collect();
            (Arc::new(filled::<$array, _>(&l, <$t>::MAX, $array::new)) as ArrayRef, num(l.iter().map(|x| x.map(|x| x.to_string())).collect()))
        }};
    }
    let (arr, ok): (ArrayRef, Vec<Box<dyn Fn(&Json) -> bool>>) = match kind {
        0 => ints!(Int8Array, i8),
        1 => ints!(Int16Array, i16),
        2 => ints!(Int32Array, i32),
        3 => ints!(Int64Array, i64),
        4 => ints!(UInt8Array, u8),
        5 => ints!(UInt16Array, u16),
        6 => ints!(UInt32Array, u32),
        7 => ints!(UInt64Array, u64),
        8 => {
            let l: Vec<Option<f64>> = (0..n).map(|_| if null(r) { None } else { number(r).as_f64() }).collect();
            (Arc::new(filled(&l, 7.5, Float64Array::new)), num(l.iter().map(|x| x.map(|x| format!("{x:e}"))).collect()))
        }
        9 => {
            let l: Vec<Option<f32>> =
                (0..n).map(|_| if null(r) { None } else { Some((r.range(-80000, 80000) as f64 / 64.0) as f32) }).collect();
            // shown to six digits
            let ok = l
                .clone()
                .into_iter()
                .map(|x| {
                    Box::new(move |j: &Json| match (x, j) {
                        (None, Json::Null) => true,
                        (None, Json::Number(n)) => n.as_f64() == Some(0.0),
                        (Some(x), Json::Number(n)) => (n.as_f64().unwrap() - x as f64).abs() <= 1.1e-6,
                        _ => false,
                    }) as Box<dyn Fn(&Json) -> bool>
                })
                .collect();
            (Arc::new(filled(&l, 7.5, Float32Array::new)), ok)
        }
        10 => {
            let l: Vec<Option<bool>> = (0..n).map(|_| if null(r) { None } else { Some(r.bool()) }).collect();
            let ok = l.clone().into_iter().map(|x| Box::new(move |j: &Json| *j == json!(x)) as Box<dyn Fn(&Json) -> bool>).collect();
            (Arc::new(BooleanArray::from(l)), ok)
        }
        11 => {
            let l: Vec<Option<String>> = (0..n).map(|_| if null(r) { None } else { Some(text(r)) }).collect();
            let ok = l.clone().into_iter().map(|x| Box::new(move |j: &Json| *j == json!(x)) as Box<dyn Fn(&Json) -> bool>).collect();
            (Arc::new(StringArray::from(l)), ok)
        }
        12 => {
            let l: Vec<Option<i64>> =
                (0..n).map(|_| if null(r) { None } else { Some(r.range(-62_000_000_000_000, 250_000_000_000_000)) }).collect();
            let ok = l.clone().into_iter().map(|x| Box::new(move |j: &Json| *j == json!(x)) as Box<dyn Fn(&Json) -> bool>).collect();
            (Arc::new(filled(&l, 77, TimestampMillisecondArray::new)), ok)
        }
        _ => {
            let scale = *r.pick(&[16i32, 16, 16, 16, 0, 2, 3, 4, 20]);
            let one = 10i128.pow(scale as u32);
            let l: Vec<Option<i128>> = (0..n)
                .map(|_| {
                    if null(r) {
                        return None;
                    }
                    let limit = 10i128.pow(38) - 1;
                    Some(match r.range(0, 6) {
                        0 => r.range(-1000, 1000) as i128 * one,
                        1 => (r.range(-1_000_000_000, 1_000_000_000) as i128 * one) / 1000,
                        2 => (r.range(-1_000_000_000, 1_000_000_000) as i128 * one) / 20000,
                        // beyond 96 bits
                        3 => (10i128.pow(r.range(29, 37) as u32) + r.range(0, 1000) as i128) * if r.bool() { 1 } else { -1 },
                        4 => if r.bool() { limit } else { -limit },
                        5 => r.range(-1000, 1000) as i128,
                        _ => r.i64_edge() as i128 * r.range(1, 1_000_000) as i128,
                    })
                })
                .collect();
            let ok = l
                .clone()
                .into_iter()
                .map(|x| {
                    Box::new(move |j: &Json| match x {
                        None => j.is_null() || j.as_f64() == Some(0.0),
                        Some(x) => rounded(x, scale, 3, j),
                    }) as Box<dyn Fn(&Json) -> bool>
                })
                .collect();
            (Arc::new(filled(&l, 77, Decimal128Array::new).with_precision_and_scale(38, scale as i8).unwrap()), ok)
        }
    };
    // parts of longer columns are columns too
    let (from, len) = if n > 0 && r.chance(1, 3) {
        let from = r.range(0, n as i64 - 1) as usize;
        (from, r.range(0, (n - from) as i64) as usize)
    } else {
        (0, n)
    };
    let arr = arr.slice(from, len);
    let about = json!({"type": arr.data_type().to_string(), "column": format!("{arr:?}")});
    m.count("columns rendered", 1);
    match guarded(|| platform::array_ref_to_json_values(&arr)) {
        Err(e) => m.violation("crash rendering a column", format!("{} crashes: {}", arr.data_type(), short(&e)), about.clone()),
        Ok(l) => {
            m.observed(mon::hash_of(&format!("{:?}{len}{}", arr.data_type(), arr.null_count())), len > 0);
            if l.len() != len {
                m.violation("length of a column", format!("{} values become {}", len, l.len()), about.clone());
            }
            for (i, j) in l.iter().enumerate() {
                m.count("values rendered", 1);
                if from + i < ok.len() && !ok[from + i](j) {
                    m.violation("value of a column", format!("value {i} of {about} becomes {j}"), about.clone());
                }
            }
        }
    }
    // single values of a record
    for i in 0..len {
        let Ok(s) = ScalarValue::try_from_array(&arr, i) else { continue };
        if matches!(kind, 4..=9) {
            continue; // not types of properties
        }
        match guarded(|| platform::scalar_to_json(&s)) {
            Err(e) => m.violation("crash rendering a value", format!("{s:?} crashes: {}", short(&e)), about.clone()),
            Ok(j) => {
                let right = if s.is_null() { j.is_null() } else { ok[from + i](&j) };
                if !right {
                    m.violation("value of a record", format!("{s:?} becomes {j}"), about.clone());
                }
            }
        }
    }
}

// ---------------------------------------------------------------- through the interface
#[derive(Clone, Debug, Default)]
struct Row {
    key: String,
    has: BTreeMap<&'static str, Json>,
}
const NAMES: [&str; 5] = ["a text", "a number", "a whole", "a flag", "a time"];
struct W {
    s: Server,
    org: u64,
    pid: u64,
    base: String,
    rows: Vec<Row>,
}
fn stamp(ms: i64) -> String {
    chrono::DateTime::from_timestamp_millis(ms).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Millis, true)
}
fn stored(r: &mut Rng, name: &str, pool: &[Json]) -> Json {
    if r.chance(1, 3) && !pool.is_empty() {
        return r.pick(pool).clone();
    }
    match name {
        "a text" => json!(text(r)),
        "a number" => match r.range(0, 3) {
            0 => json!(r.range(-100000, 100000) as f64 / 8.0),
            1 => json!(r.range(-1_000_000_000, 1_000_000_000) as f64 / 10000.0),
            2 => json!(*r.pick(&[0.0005, 0.0015, 0.0625, -0.4375, 1e11, 99999999999.5, 1e-9])),
            _ => json!(r.range(-100000, 100000) as f64 / 100.0),
        },
        "a whole" => json!(r.range(-1000, 1000)),
        "a flag" => json!(r.bool()),
        _ => json!(r.range(946_684_800_000, 1_893_456_000_000)),
    }
}
impl W {
    fn new(r: &mut Rng, m: &mut Mon) -> W {
        let s = Server::new();
        let org = s.org("org");
        let (pid, sdk) = s.project(org, "p", 7200);
        let mut w = W { base: format!("/api/v1/projects/{pid}"), s, org, pid, rows: vec![] };
        let mut pools: BTreeMap<&str, Vec<Json>> = Default::default();
        let n = r.range(8, 40);
        for i in 0..n {
            let mut row = Row { key: format!("k{i}"), ..Default::default() };
            let mut sent = json!({"key": row.key});
            for p in NAMES {
                if i == 0 || r.chance(3, 4) {
                    let pool = pools.entry(p).or_default();
                    let v = stored(r, p, pool);
                    pool.push(v.clone());
                    sent[p] = if p == "a time" { json!(stamp(v.as_i64().unwrap())) } else { v.clone() };
                    row.has.insert(p, v);
                }
            }
            let b = json!({"event": "bought", "userId": format!("u{}", r.range(0, 4)), "context": {}, "properties": sent});
            let x = w
                .s
                .call("POST", &format!("/api/v1/ingest/{sdk}/track"), &[("content-type", "application/json")], &b.to_string())
                .unwrap_or_else(|e| panic!("harness: {e}"));
            assert!(x.status == 201, "harness: {b} {x:?}");
            m.count("rows sent", 1);
            w.rows.push(row);
        }
        w
    }
    fn api(&self, method: &str, path: &str, body: &Json) -> Result<crate::server::Resp, String> {
        self.s.api(self.s.admin(), self.org, method, &format!("{}/{path}", self.base), body)
    }
    fn column(x: &Json, name: &str) -> Option<Vec<Json>> {
        x["columns"].as_array()?.iter().find(|c| c["name"] == json!(name))?["data"].as_array().cloned()
    }
    fn search(&self, filter: Option<Json>, names: &[&str]) -> Result<Json, String> {
        let mut b = json!({"time": {"type": "last", "last": 3, "unit": "day"}, "events": [{"eventType": "regular", "eventName": "bought"}]});
        let l: Vec<&str> = ["key"].iter().chain(names).copied().collect();
        b["properties"] = json!(l.iter().map(|n| json!({"propertyType": "event", "propertyName": n})).collect::<Vec<_>>());
        if let Some(f) = filter {
            b["filters"] = json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": [f]}]});
        }
        let x = self.api("POST", "event-records/search", &b)?;
        if !x.ok() {
            return Err(format!("{} {}", x.status, short(&x.text)));
        }
        Ok(x.json)
    }
}
/// A value as it must be shown.
fn shown(name: &str, sent: Option<&Json>, got: &Json) -> bool {
    match (name, sent) {
        ("a number" | "a whole", None) => got.is_null() || got.as_f64() == Some(0.0),
        ("a number" | "a whole", Some(Json::Number(n))) => {
            let (d, e) = exact(&written(n));
            if e >= 0 { rounded(d * 10i128.pow(e as u32), 0, 3, got) } else { rounded(d, -e, 3, got) }
        }
        (_, None) => got.is_null(),
        (_, Some(v)) => got == v,
    }
}
fn world(m: &mut Mon, r: &mut Rng, rounds: usize) {
    let w = W::new(r, m);
    let vio = |m: &mut Mon, key: &str, what: String, w: &W| {
        let rows: Vec<Json> = w.rows.iter().map(|x| json!({"key": x.key, "has": x.has})).collect();
        m.violation(key, what, json!({"rows": rows}));
    };
    for round in 0..rounds {
        match r.range(0, 9) {
            // rows as columns
            0 | 1 => {
                let mut names: Vec<&str> = NAMES.to_vec();
                names.retain(|_| r.chance(2, 3));
                if r.bool() {
                    names.reverse();
                }
                match w.search(None, &names) {
                    Err(e) => vio(m, "search fails", format!("searching for {names:?}: {e}"), &w),
                    Ok(x) => {
                        let keys = W::column(&x, "key").unwrap_or_default();
                        let all: Vec<&str> =
                            x["columns"].as_array().map(|l| l.iter().map(|c| c["name"].as_str().unwrap_or("")).collect()).unwrap_or_default();
                        let order: Vec<&str> = all.iter().copied().filter(|c| NAMES.contains(c)).collect();
                        if order != names {
                            vio(m, "order of columns", format!("{names:?} come as {order:?}"), &w);
                        }
                        if keys.len() != w.rows.len() {
                            vio(m, "rows found", format!("{} rows of {}", keys.len(), w.rows.len()), &w);
                        }
                        for name in &names {
                            let Some(c) = W::column(&x, name) else {
                                vio(m, "column missing", format!("no column {name}"), &w);
                                continue;
                            };
                            for (i, k) in keys.iter().enumerate() {
                                let Some(row) = w.rows.iter().find(|x| json!(x.key) == *k) else { continue };
                                m.count("cells compared", 1);
                                let got = c.get(i).cloned().unwrap_or(json!("nothing"));
                                if !shown(name, row.has.get(name), &got) {
                                    vio(m, "cell", format!("{name} of {k}: sent {:?}, shown {got}", row.has.get(name)), &w);
                                }
                            }
                        }
                    }
                }
            }
            // one row as a record
            2 => {
                let id = r.range(1, w.rows.len() as i64 + 5);
                match w.api("GET", &format!("event-records/{id}"), &Json::Null) {
                    Err(e) => vio(m, "record crashes", format!("record {id}: {}", short(&e)), &w),
                    Ok(x) if x.ok() => {
                        let l = x.json["properties"].as_array().cloned().unwrap_or_default();
                        let get = |n: &str| l.iter().find(|p| p["propertyName"] == json!(n)).map(|p| p["value"].clone());
                        let key = get("key");
                        let Some(row) = w.rows.iter().find(|x| Some(json!(x.key)) == key) else { continue };
                        for name in NAMES {
                            m.count("record values compared", 1);
                            let got = get(name).unwrap_or(Json::Null);
                            if !shown(name, row.has.get(name), &got) {
                                vio(m, "value of a record", format!("{name} of {key:?}: sent {:?}, shown {got}", row.has.get(name)), &w);
                            }
                        }
                    }
                    Ok(x) if x.status == 404 => {}
                    Ok(x) => vio(m, "record fails", format!("record {id}: {} {}", x.status, short(&x.text)), &w),
                }
            }
            // values of a property
            3 => {
                let name = *r.pick(&NAMES);
                let b = json!({"propertyType": "event", "propertyName": name, "eventType": "regular", "eventName": "bought"});
                match w.api("POST", "property-values", &b) {
                    Err(e) => vio(m, "listing crashes", format!("values of {name}: {}", short(&e)), &w),
                    Ok(x) if x.ok() => {
                        let l = x.json["data"].as_array().cloned().unwrap_or_default();
                        let sent: Vec<&Json> = w.rows.iter().filter_map(|x| x.has.get(name)).collect();
                        m.count("listings compared", 1);
                        for v in &sent {
                            if !l.iter().any(|g| shown(name, Some(v), g)) {
                                vio(m, "listing misses", format!("{name}: {v} is not among {}", short(&json!(l).to_string())), &w);
                            }
                        }
                        for g in &l {
                            if !sent.iter().any(|v| shown(name, Some(v), g)) && !shown(name, None, g) {
                                vio(m, "listing invents", format!("{name}: {g} was not sent"), &w);
                            }
                        }
                    }
                    Ok(x) => vio(m, "listing fails", format!("values of {name}: {} {}", x.status, short(&x.text)), &w),
                }
            }
            // a value of a filter denotes the rows that have it
            4..=6 => {
                let name = *r.pick(&NAMES);
                let have: Vec<Json> = w.rows.iter().filter_map(|x| x.has.get(name).cloned()).collect();
                let mut vals: Vec<Json> = (0..r.range(1, 3)).map(|_| stored(r, name, &have)).collect();
                if vals.iter().any(|v| v == &json!("")) {
                    vals.retain(|v| v != &json!(""));
                    if vals.is_empty() {
                        continue;
                    }
                }
                let same = |a: &Json, b: &Json| match (a, b) {
                    (Json::Number(a), Json::Number(b)) => exact(&written(a)) == exact(&written(b)),
                    (a, b) => a == b,
                };
                // compared like the engine keeps them: sixteen digits after the point
                let f = json!({"type": "property", "propertyType": "event", "propertyName": name, "operation": "eq", "value": vals});
                let mut want: Vec<String> = w
                    .rows
                    .iter()
                    .filter(|x| x.has.get(name).is_some_and(|v| vals.iter().any(|w| same(v, w))))
                    .map(|x| x.key.clone())
                    .collect();
                want.sort();
                match w.search(Some(f.clone()), &[]) {
                    Err(e) => vio(m, "filter fails", format!("filter {f}: {e}"), &w),
                    Ok(x) => {
                        m.count("filters compared", 1);
                        let mut got: Vec<String> =
                            W::column(&x, "key").unwrap_or_default().iter().map(|k| k.as_str().unwrap_or("").to_string()).collect();
                        got.sort();
                        if want != got {
                            vio(m, "rows of a filter", format!("filter {f}: rows {want:?} have it, found {got:?}"), &w);
                        }
                    }
                }
            }
            // kept with a custom event and sent back
            7 => {
                let name = *r.pick(&NAMES);
                let vals: Vec<Json> = (0..r.range(1, 3))
                    .map(|_| match name {
                        "a text" => json!(text(r)),
                        "a flag" => json!(r.bool()),
                        // larger ones are beyond what the engine holds
                        _ => loop {
                            let n = number(r);
                            if n.as_f64().unwrap().abs() < 1e21 {
                                break n;
                            }
                        },
                    })
                    .collect();
                let f = json!({"type": "property", "propertyType": "event", "propertyName": name, "operation": "eq", "value": vals});
                let b = json!({
                    "name": format!("c{round}"), "status": "enabled", "isSystem": false,
                    "events": [{"eventType": "regular", "eventName": "bought", "filters": [f]}]
                });
                let back = |x: &Json| -> Option<Vec<Json>> { x["events"][0]["filters"][0]["value"].as_array().cloned() };
                match w.api("POST", "schema/custom-events", &b) {
                    Err(e) => vio(m, "custom event crashes", format!("{b}: {}", short(&e)), &w),
                    Ok(x) if x.ok() => {
                        let id = x.json["id"].as_u64().unwrap_or(0);
                        let later = w.api("GET", &format!("schema/custom-events/{id}"), &Json::Null);
                        for (what, x) in [("answered", Ok(x)), ("read later", later)] {
                            m.count("custom events compared", 1);
                            let got = match &x {
                                Ok(x) => back(&x.json),
                                Err(e) => {
                                    vio(m, "custom event crashes", format!("reading {b}: {}", short(e)), &w);
                                    continue;
                                }
                            };
                            let right = got.as_ref().is_some_and(|g| g.len() == vals.len() && g.iter().zip(&vals).all(|(g, v)| same_json(v, g)));
                            if !right {
                                vio(m, "values of a custom event", format!("{what}: sent {}, got {}", json!(vals), json!(got)), &w);
                            }
                        }
                    }
                    Ok(x) if (400..500).contains(&x.status) && name == "a time" => {}
                    Ok(x) => vio(m, "custom event refused", format!("{b}: {} {}", x.status, short(&x.text)), &w),
                }
            }
            // no value at all
            _ => {
                let name = *r.pick(&NAMES);
                let mut vals = vec![unsupported(r)];
                if r.bool() {
                    vals.push(stored(r, name, &[]));
                }
                if r.bool() {
                    vals.reverse();
                }
                let f = json!({"type": "property", "propertyType": "event", "propertyName": name, "operation": *r.pick(&["eq", "neq", "empty", "exists", "true"]), "value": vals});
                let ev = json!({"eventType": "regular", "eventName": "bought", "filters": [f]});
                let last = json!({"type": "last", "last": 3, "unit": "day"});
                let groups = json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": [f]}]});
                let mut seg = crate::perm::segmentation("bought");
                let mut fun = crate::perm::funnel("bought");
                if r.bool() {
                    seg["events"][0]["filters"] = json!([f]);
                    fun["steps"][0]["events"] = json!([ev]);
                } else {
                    seg["filters"] = groups.clone();
                    fun["filters"] = groups.clone();
                }
                let report = |q: &Json, t: &str| {
                    let mut q = q.clone();
                    q["type"] = json!(t);
                    json!({"name": format!("r{round}"), "type": t, "query": q})
                };
                let (method, path, b) = match r.range(0, 9) {
                    0 => ("POST", "schema/custom-events", json!({"name": format!("x{round}"), "status": "enabled", "isSystem": false, "events": [ev]})),
                    1 => ("POST", "event-records/search", json!({"time": last, "events": [ev]})),
                    2 => ("POST", "event-records/search", json!({"time": last, "filters": groups})),
                    3 => ("POST", "queries/event-segmentation", seg),
                    4 => ("POST", "queries/funnel", fun),
                    5 => (
                        "POST",
                        "property-values",
                        json!({"propertyType": "event", "propertyName": name, "filter": {"operation": f["operation"], "value": vals}}),
                    ),
                    6 => ("POST", "reports", report(&seg, "eventSegmentation")),
                    7 => ("POST", "reports", report(&fun, "funnel")),
                    8 => ("POST", "group-records/search", json!({"group": 0, "filters": groups})),
                    _ => ("POST", "bookmarks", json!({"query": report(&fun, "funnel")["query"]})),
                };
                m.count("values refused", 1);
                let before = w.s.kv.dump();
                match w.api(method, path, &b) {
                    Err(e) => vio(m, "crash on a value", format!("{path} {b} crashes: {}", short(&e)), &w),
                    Ok(x) if x.status == 400 || x.status == 501 && vals.iter().any(|v| v.is_array() || v.is_object()) => {
                        if w.s.kv.dump() != before {
                            vio(m, "refused and kept", format!("{path} {b} was refused, but changed something"), &w);
                        }
                    }
                    Ok(x) => vio(m, "value taken", format!("{path} {b}: {} {}", x.status, short(&x.text)), &w),
                }
            }
        }
    }
    m.sample(|| json!({"rows": w.rows.len(), "project": w.pid}));
    w.s.discard();
}
pub fn run(m: &mut Mon, r: &mut Rng, n: usize, secs: (u64, u64)) {
    for _ in 0..if m.thorough() { 400_000 } else { 8_000 } {
        scalars(m, r);
        columns(m, r);
    }
    let t = Instant::now();
    let limit = Duration::from_secs(if m.thorough() { secs.1 } else { secs.0 });
    for _ in 0..if m.thorough() { n * 20 } else { n } {
        if t.elapsed() > limit {
            break;
        }
        let mut r = r.fork();
        world(m, &mut r, 40);
        m.count("worlds", 1);
    }
}
