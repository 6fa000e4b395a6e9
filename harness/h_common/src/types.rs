//! C01 type mappings, C02/C03 stored forms, C04 partial updates, C05 permissions, C09 translation
//! tables, C13 labels.
use std::collections::HashMap;
use std::fmt::Debug;

use arrow::array::Array;
use arrow_schema::DataType as A1;
use arrow_schema::Field as F1;
use arrow_schema::TimeUnit as T1;
use arrow2::datatypes::DataType as A2;
use arrow2::datatypes::Field as F2;
use arrow2::datatypes::TimeUnit as T2;
use common::arrow::DecimalBuilder;
use common::event_segmentation as es;
use common::funnel as fu;
use common::query::*;
use common::rbac::*;
use common::scalar::ScalarValueRef;
use common::types::DType;
use common::types::OptionalProperty;
use datafusion_common::ScalarValue;
use datafusion_expr::AggregateFunction as DFAgg;
use datafusion_expr::Operator as DFOp;
use mon::*;
use serde::de::DeserializeOwned;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;

use crate::gen;

const SCALARS: [DType; 8] = [
    DType::String, DType::Int8, DType::Int16, DType::Int32, DType::Int64, DType::Decimal, DType::Boolean, DType::Timestamp,
];
fn want1(t: &DType) -> A1 {
    match t {
        DType::String => A1::Utf8,
        DType::Int8 => A1::Int8,
        DType::Int16 => A1::Int16,
        DType::Int32 => A1::Int32,
        DType::Int64 => A1::Int64,
        DType::Decimal => A1::Decimal128(28, 16),
        DType::Boolean => A1::Boolean,
        DType::Timestamp => A1::Timestamp(T1::Millisecond, None),
        DType::List(t) => want1(t),
    }
}
fn want2(t: &DType) -> A2 {
    match t {
        DType::String => A2::Utf8,
        DType::Int8 => A2::Int8,
        DType::Int16 => A2::Int16,
        DType::Int32 => A2::Int32,
        DType::Int64 => A2::Int64,
        DType::Decimal => A2::Decimal(28, 16),
        DType::Boolean => A2::Boolean,
        DType::Timestamp => A2::Timestamp(T2::Millisecond, None),
        DType::List(t) => want2(t),
    }
}

pub fn c01(m: &mut Mon) {
    m.rule("All eight scalar property types and the lists of them, mapped in both directions to both column type systems (list columns with several field names and nullability), short tags, and refused column types; decimal columns built with random values. Non-trivial: every mapping evaluation; distinct by (direction, type).");
    let mut all: Vec<DType> = SCALARS.to_vec();
    all.extend(SCALARS.iter().map(|t| DType::List(Box::new(t.clone()))));
    let mut tags: HashMap<String, DType> = HashMap::new();
    for t in &all {
        let want_back = match t {
            DType::List(e) => e.as_ref().clone(),
            o => o.clone(),
        };
        match guarded(|| A1::from(t.clone())) {
            Ok(d) => {
                m.observed(("to1", format!("{t:?}")), true);
                m.check(d == want1(t), "query-type", || format!("{t:?} -> {d:?}, expected {:?}", want1(t)));
                match guarded(|| DType::from(d.clone())) {
                    Ok(b) => m.check(b == want_back, "query-type-back", || format!("{t:?} -> {d:?} -> {b:?}")),
                    Err(p) => m.violation("query-type-back", format!("{t:?} -> {d:?}: {p}"), json!(null)),
                }
            }
            Err(p) => m.violation("query-type", format!("{t:?}: {p}"), json!(null)),
        }
        match guarded(|| A2::try_from(t.clone())) {
            Ok(Ok(d)) => {
                m.observed(("to2", format!("{t:?}")), true);
                m.check(d == want2(t), "storage-type", || format!("{t:?} -> {d:?}, expected {:?}", want2(t)));
                match guarded(|| DType::try_from(d.clone())) {
                    Ok(Ok(b)) => m.check(b == want_back, "storage-type-back", || format!("{t:?} -> {d:?} -> {b:?}")),
                    o => m.violation("storage-type-back", format!("{t:?} -> {d:?}: {o:?}"), json!(null)),
                }
            }
            o => m.violation("storage-type", format!("{t:?}: {o:?}"), json!(null)),
        }
        match guarded(|| t.short_name()) {
            Ok(s) => {
                m.check(!s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'), "tag-form", || format!("{t:?} tag {s:?}"));
                if let Some(o) = tags.insert(s.clone(), t.clone()) {
                    m.violation("tag-collision", format!("{t:?} and {o:?} share tag {s:?}"), json!(null));
                }
            }
            Err(p) => m.violation("tag", format!("{t:?}: {p}"), json!(null)),
        }
        // stored form of the type itself
        let j = serde_json::to_string(t).unwrap();
        m.check(serde_json::from_str::<DType>(&j).ok().as_ref() == Some(t), "type-json", || format!("{t:?} stored as {j}"));
        m.sample(|| json!({"type": format!("{t:?}"), "query": format!("{:?}", A1::from(t.clone())), "tag": t.short_name()}));
    }
    m.check(DType::default() == DType::String, "type-default", || "default type".into());
    // list columns of either engine, any field name and nullability
    for t in &SCALARS {
        for name in ["item", "x", ""] {
            for null in [true, false] {
                let l1 = A1::List(std::sync::Arc::new(F1::new(name, want1(t), null)));
                let l2 = A2::List(Box::new(F2::new(name, want2(t), null)));
                m.observed(("list", format!("{t:?}{name}{null}")), true);
                let r1 = guarded(|| DType::from(l1.clone()));
                m.check(r1.as_ref() == Ok(t), "list-query", || format!("{l1:?} -> {r1:?}"));
                let r2 = guarded(|| DType::try_from(l2.clone()));
                m.check(matches!(&r2, Ok(Ok(b)) if b == t), "list-storage", || format!("{l2:?} -> {r2:?}"));
            }
        }
    }
    // time zones, precisions and units of incoming columns do not change the kind
    for (p, s) in [(1u8, 0i8), (10, 2), (28, 16), (38, 10)] {
        let r = guarded(|| DType::from(A1::Decimal128(p, s)));
        m.check(r == Ok(DType::Decimal), "decimal-kind", || format!("Decimal128({p},{s}) -> {r:?}"));
    }
    for u in [T1::Second, T1::Millisecond, T1::Microsecond, T1::Nanosecond] {
        let r = guarded(|| DType::from(A1::Timestamp(u.clone(), Some("UTC".into()))));
        m.check(r == Ok(DType::Timestamp), "timestamp-kind", || format!("{u:?} -> {r:?}"));
    }
    // unsupported types are refused (an error or a panic), or mapped to the type of the same kind
    let bad1 = [A1::Null, A1::Float16, A1::Float32, A1::Float64, A1::UInt8, A1::UInt16, A1::UInt32, A1::UInt64, A1::Date32, A1::Date64, A1::Binary, A1::LargeBinary, A1::Time32(T1::Second), A1::Decimal256(40, 2), A1::Interval(arrow_schema::IntervalUnit::DayTime), A1::Duration(T1::Second)];
    let bad2 = [A2::Null, A2::Float16, A2::Float32, A2::Float64, A2::UInt8, A2::UInt16, A2::UInt32, A2::UInt64, A2::Date32, A2::Date64, A2::Binary, A2::LargeBinary, A2::Time32(T2::Second), A2::Decimal256(40, 2), A2::Duration(T2::Second)];
    for d in bad1 {
        let r = guarded(|| DType::from(d.clone()));
        m.observed(("bad1", format!("{d:?}")), true);
        m.count("refused", r.is_err() as u64);
        m.check(r.is_err(), "unsupported-query", || format!("{d:?} accepted as {r:?}"));
        let l = A1::List(std::sync::Arc::new(F1::new("item", d.clone(), true)));
        let r = guarded(|| DType::from(l.clone()));
        m.check(r.is_err(), "unsupported-query-list", || format!("{l:?} accepted as {r:?}"));
    }
    for d in bad2 {
        m.observed(("bad2", format!("{d:?}")), true);
        let r = guarded(|| DType::try_from(d.clone()));
        let refused = !matches!(r, Ok(Ok(_)));
        m.count("refused", refused as u64);
        m.check(refused, "unsupported-storage", || format!("{d:?} accepted as {r:?}"));
        let l = A2::List(Box::new(F2::new("item", d.clone(), true)));
        let r = guarded(|| DType::try_from(l.clone()));
        m.check(!matches!(r, Ok(Ok(_))), "unsupported-storage-list", || format!("{l:?} accepted as {r:?}"));
    }
    // nested lists have no column type
    let nested = DType::List(Box::new(DType::List(Box::new(DType::String))));
    m.check(guarded(|| A1::from(nested.clone())).is_err(), "nested-query", || "a list of lists has a query type".into());
    m.check(!matches!(guarded(|| A2::try_from(nested.clone())), Ok(Ok(_))), "nested-storage", || "a list of lists has a storage type".into());
    // decimal columns
    let mut rng = m.rng.fork();
    for _ in 0..m.n(300, 5000) {
        let n = rng.below(20);
        let vals: Vec<Option<i128>> = (0..n).map(|_| if rng.chance(1, 4) { None } else { Some(rng.i64_edge() as i128 * 1000) }).collect();
        let cap = rng.below(30);
        let mut b = DecimalBuilder::with_capacity(cap);
        for v in &vals {
            b.append_option(*v);
        }
        let a = b.finish();
        m.observed(("dec", &vals), n > 0);
        m.count("decimal_columns", 1);
        m.check(a.data_type() == &A1::from(DType::Decimal), "decimal-builder-type", || format!("{:?}", a.data_type()));
        let got: Vec<Option<i128>> = a.iter().collect();
        m.check(got == vals, "decimal-builder-values", || format!("{vals:?} -> {got:?}"));
    }
    let mult = (0..common::DECIMAL_SCALE).fold(1i128, |a, _| a * 10);
    m.check(common::DECIMAL_MULTIPLIER == mult && common::DECIMAL_PRECISION == 28 && common::DECIMAL_SCALE == 16, "decimal-constants", || "decimal constants disagree".into());
    m.require("refused", 20);
}

#[serde_with::serde_as]
#[derive(Serialize, Deserialize, Debug)]
struct Holder {
    #[serde_as(as = "ScalarValueRef")]
    one: ScalarValue,
    #[serde_as(as = "Option<ScalarValueRef>")]
    opt: Option<ScalarValue>,
    #[serde_as(as = "Option<Vec<ScalarValueRef>>")]
    many: Option<Vec<ScalarValue>>,
    tail: u32,
}

pub fn c02(m: &mut Mon) {
    m.rule("Every representable scalar kind, null and non-null, boundary and random contents, through the text (JSON) and the binary (bincode) stored form, alone, optional, in lists and as saved filter values. Non-trivial: non-null; distinct by content.");
    m.assume("text form: floats with few digits only (a JSON number has no NaN and the JSON library's float parser may differ in the last place)");
    let mut rng = m.rng.fork();
    let n = m.n(300, 20_000);
    for kind in 0..gen::KINDS {
        for _ in 0..n {
            for text in [true, false] {
                let v = gen::scalar_kind(&mut rng, kind, text);
                let many = if rng.bool() { None } else { Some((0..rng.below(4)).map(|_| { let k = rng.below(gen::KINDS); gen::scalar_kind(&mut rng, k, text) }).collect::<Vec<_>>()) };
                let h = Holder { one: v.clone(), opt: if rng.bool() { None } else { Some(v.clone()) }, many, tail: 0xDEAD_BEEF };
                let d = gen::describe(&v);
                m.observed((text, &d), !v.is_null());
                m.count(if text { "text" } else { "binary" }, 1);
                let back = guarded(|| -> Result<Holder, String> {
                    if text {
                        let s = serde_json::to_string(&h).map_err(|e| e.to_string())?;
                        serde_json::from_str(&s).map_err(|e| format!("{e}: {s}"))
                    } else {
                        let s = bincode::serialize(&h).map_err(|e| e.to_string())?;
                        bincode::deserialize(&s).map_err(|e| e.to_string())
                    }
                });
                match back {
                    Ok(Ok(b)) => {
                        m.check(gen::describe(&b.one) == d, &format!("kind-{kind}"), || format!("wrote {d}, read {}", gen::describe(&b.one)));
                        let f = |o: &Option<ScalarValue>| o.as_ref().map(gen::describe);
                        m.check(f(&b.opt) == f(&h.opt), "optional", || format!("wrote {:?}, read {:?}", f(&h.opt), f(&b.opt)));
                        let g = |o: &Option<Vec<ScalarValue>>| o.as_ref().map(|v| v.iter().map(gen::describe).collect::<Vec<_>>());
                        m.check(g(&b.many) == g(&h.many), "list", || format!("wrote {:?}, read {:?}", g(&h.many), g(&b.many)));
                        m.check(b.tail == h.tail, "framing", || "the field after the values is damaged".into());
                    }
                    Ok(Err(e)) => m.violation("unreadable", format!("{d}: {e}"), json!(null)),
                    Err(p) => m.violation("stored-panic", format!("{d}: {p}"), json!(null)),
                }
                m.sample(|| json!({"value": d, "text": serde_json::to_string(&h).unwrap_or_default()}));
            }
        }
    }
    m.require("binary", 1000);
}

fn stored<T: Serialize + DeserializeOwned + PartialEq + Debug>(m: &mut Mon, kind: &str, v: &T, texts: &mut HashMap<String, String>) {
    let r = guarded(|| -> Result<(T, T, String), String> {
        let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let b = bincode::serialize(v).map_err(|e| e.to_string())?;
        let x = serde_json::from_str(&s).map_err(|e| format!("text: {e}: {s}"))?;
        let y = bincode::deserialize(&b).map_err(|e| format!("binary: {e}: {s}"))?;
        Ok((x, y, s))
    });
    let d = format!("{v:?}");
    m.observed((kind, &d), true);
    m.count(kind, 1);
    match r {
        Ok(Ok((x, y, s))) => {
            let (dx, dy) = (format!("{x:?}"), format!("{y:?}"));
            m.check(&x == v && dx == d, &format!("{kind}-text"), || format!("wrote {d}\n read {dx}"));
            m.check(&y == v && dy == d, &format!("{kind}-binary"), || format!("wrote {d}\n read {dy}"));
            if let Some(o) = texts.insert(s.clone(), d.clone()) {
                m.check(o == d, &format!("{kind}-ambiguous"), || format!("{o}\n and {d}\n are both stored as {s}"));
            }
            m.sample(|| json!({"kind": kind, "text": if s.len() > 600 { s.chars().take(600).collect::<String>() } else { s.clone() }}));
        }
        Ok(Err(e)) => m.violation(&format!("{kind}-unreadable"), format!("{d}: {e}"), json!(null)),
        Err(p) => m.violation(&format!("{kind}-panic"), format!("{d}: {p}"), json!(null)),
    }
}

pub fn c03(m: &mut Mon) {
    m.rule("Random request trees of the full request grammar (segmentation, funnel, and each part alone), through text and binary stored forms; different requests must have different texts. Non-trivial: all; distinct by content.");
    let mut rng = m.rng.fork();
    let n = m.n(2500, 150_000);
    let mut t: Vec<HashMap<String, String>> = vec![HashMap::new(); 8];
    for i in 0..n {
        if i % 128 == 0 && !m.within(30, 400) {
            break;
        }
        let r = &mut rng;
        stored(m, "segmentation", &gen::es_request(r), &mut t[0]);
        stored(m, "funnel", &gen::funnel(r), &mut t[1]);
        stored(m, "query", &gen::es_query(r), &mut t[2]);
        stored(m, "filter", &gen::filter(r), &mut t[3]);
        stored(m, "segment", &gen::segment(r), &mut t[4]);
        stored(m, "time", &gen::query_time(r), &mut t[5]);
        stored(m, "condition", &gen::seg_cond(r), &mut t[6]);
        stored(m, "event", &gen::es_event(r), &mut t[7]);
    }
    m.require("segmentation", 100);
    m.require("funnel", 100);
}

// ------------------------------------------------------------------ C04
#[derive(Deserialize, Debug, PartialEq, Clone, Default)]
struct Inner {
    x: i64,
    y: Option<String>,
}
#[derive(Deserialize, Debug, PartialEq, Clone, Default)]
#[serde(rename_all = "camelCase")]
struct Update {
    #[serde(default)]
    a: OptionalProperty<Option<i64>>,
    #[serde(default)]
    b: OptionalProperty<String>,
    #[serde(default)]
    tags: OptionalProperty<Option<Vec<String>>>,
    #[serde(default)]
    inner: OptionalProperty<Option<Inner>>,
    #[serde(default)]
    flag: OptionalProperty<bool>,
    #[serde(default)]
    maybe_flag: OptionalProperty<Option<bool>>,
    #[serde(default)]
    kind: OptionalProperty<Option<DType>>,
    #[serde(default)]
    unit: OptionalProperty<()>,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug, Hash)]
enum Case {
    Absent,
    Null,
    Value,
    Bad,
}

pub fn c04(m: &mut Mon) {
    m.rule("Update documents over eight fields of different types, each absent, null, valued or mistyped, decoded from text, bytes, a value tree and a reader; then random sequences of set / convert / map operations against a three-case model. Non-trivial: a document with at least one null and one value, or a sequence with a present value; distinct by document.");
    let mut rng = m.rng.fork();
    for i in 0..m.n(20_000, 1_000_000) {
        if i % 512 == 0 && !m.within(20, 300) {
            break;
        }
        let case = |r: &mut Rng| match r.below(20) {
            0..=6 => Case::Absent,
            7..=12 => Case::Null,
            13..=18 => Case::Value,
            _ => Case::Bad,
        };
        let names = ["a", "b", "tags", "inner", "flag", "maybeFlag", "kind"];
        let cs: Vec<Case> = names.iter().map(|_| case(&mut rng)).collect();
        let mut doc = serde_json::Map::new();
        let mut want = Update::default();
        let mut err = false;
        for (i, n) in names.iter().enumerate() {
            let mut put = |v: serde_json::Value| {
                doc.insert(n.to_string(), v);
            };
            match cs[i] {
                Case::Absent => {}
                Case::Bad => {
                    put(json!({"bad": 1}));
                    err = true;
                }
                Case::Null => {
                    put(json!(null));
                    match i {
                        0 => want.a = OptionalProperty::Some(None),
                        2 => want.tags = OptionalProperty::Some(None),
                        3 => want.inner = OptionalProperty::Some(None),
                        5 => want.maybe_flag = OptionalProperty::Some(None),
                        6 => want.kind = OptionalProperty::Some(None),
                        _ => err = true,
                    }
                }
                Case::Value => match i {
                    0 => {
                        let v = rng.i64_edge();
                        put(json!(v));
                        want.a = OptionalProperty::Some(Some(v));
                    }
                    1 => {
                        let v = rng.string();
                        put(json!(v));
                        want.b = OptionalProperty::Some(v);
                    }
                    2 => {
                        let v: Vec<String> = (0..rng.below(4)).map(|_| rng.string()).collect();
                        put(json!(v));
                        want.tags = OptionalProperty::Some(Some(v));
                    }
                    3 => {
                        let v = Inner { x: rng.i64_edge(), y: if rng.bool() { None } else { Some(rng.string()) } };
                        put(if v.y.is_none() && rng.bool() { json!({"x": v.x}) } else { json!({"x": v.x, "y": v.y}) });
                        want.inner = OptionalProperty::Some(Some(v));
                    }
                    4 => {
                        let v = rng.bool();
                        put(json!(v));
                        want.flag = OptionalProperty::Some(v);
                    }
                    5 => {
                        let v = rng.bool();
                        put(json!(v));
                        want.maybe_flag = OptionalProperty::Some(Some(v));
                    }
                    _ => {
                        let v = rng.pick(&SCALARS).clone();
                        put(serde_json::to_value(&v).unwrap());
                        want.kind = OptionalProperty::Some(Some(v));
                    }
                },
            }
        }
        let v = serde_json::Value::Object(doc);
        let text = v.to_string();
        m.observed(&text, cs.contains(&Case::Null) && cs.contains(&Case::Value));
        m.count("documents", 1);
        let res = [
            guarded(|| serde_json::from_str::<Update>(&text).map_err(|e| e.to_string())),
            guarded(|| serde_json::from_slice::<Update>(text.as_bytes()).map_err(|e| e.to_string())),
            guarded(|| serde_json::from_reader::<_, Update>(text.as_bytes()).map_err(|e| e.to_string())),
            guarded(|| serde_json::from_value::<Update>(v.clone()).map_err(|e| e.to_string())),
        ];
        for (k, r) in res.iter().enumerate() {
            match r {
                Ok(Ok(u)) => {
                    m.check(!err, "accepted-bad", || format!("[{k}] {text} accepted as {u:?}"));
                    m.check(err || *u == want, "decoded", || format!("[{k}] {text} decoded as {u:?}, expected {want:?}"));
                }
                Ok(Err(e)) => m.check(err, "refused-good", || format!("[{k}] {text} refused: {e}")),
                Err(p) => m.violation("decode-panic", format!("[{k}] {text}: {p}"), json!(null)),
            }
        }
        // present values are written as themselves
        if let (OptionalProperty::Some(_), false) = (&want.tags, err) {
            let s = guarded(|| serde_json::to_value(&want.tags));
            match s {
                Ok(Ok(j)) => m.check(j == v["tags"], "written", || format!("{:?} written as {j}", want.tags)),
                o => m.violation("written", format!("{:?}: {o:?}", want.tags), json!(null)),
            }
        }
        m.sample(|| json!({"document": v, "refused": err}));
    }
    // sequences against a model
    #[derive(Debug, Clone, PartialEq)]
    struct Even(i64);
    impl TryFrom<i64> for Even {
        type Error = String;
        fn try_from(v: i64) -> Result<Self, String> {
            if v % 2 == 0 { Ok(Even(v)) } else { Err(format!("odd {v}")) }
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    struct Wrap(i64);
    impl From<i64> for Wrap {
        fn from(v: i64) -> Self {
            Wrap(v)
        }
    }
    for i in 0..m.n(20_000, 500_000) {
        if i % 512 == 0 && !m.within(30, 500) {
            break;
        }
        let mut model: Option<i64> = None;
        let mut p: OptionalProperty<i64> = if rng.bool() { OptionalProperty::None } else { OptionalProperty::default() };
        let len = rng.below(8);
        let mut ops = vec![];
        let calls = std::cell::Cell::new(0u32);
        for _ in 0..len {
            let k = rng.below(4);
            let v = rng.range(-1000, 1000);
            ops.push((k, v));
            match k {
                0 => {
                    p.insert(v);
                    model = Some(v);
                }
                1 => {
                    calls.set(0);
                    p = p.map(|x| {
                        calls.set(calls.get() + 1);
                        x + v
                    });
                    let want = model.is_some() as u32;
                    m.check(calls.get() == want, "map-calls", || format!("map called its function {} times on {model:?}", calls.get()));
                    model = model.map(|x| x + v);
                }
                2 => {
                    let q: OptionalProperty<Wrap> = p.clone().into();
                    let w = match &q {
                        OptionalProperty::None => None,
                        OptionalProperty::Some(x) => Some(x.0),
                    };
                    m.check(w == model, "into", || format!("{p:?} into {q:?}"));
                }
                _ => {
                    let q: Result<OptionalProperty<Even>, String> = p.clone().try_into();
                    let ok = match (&q, model) {
                        (Ok(OptionalProperty::None), None) => true,
                        (Ok(OptionalProperty::Some(e)), Some(v)) => v % 2 == 0 && e.0 == v,
                        (Err(e), Some(v)) => v % 2 != 0 && *e == format!("odd {v}"),
                        _ => false,
                    };
                    m.check(ok, "try-into", || format!("{p:?} try_into {q:?}"));
                }
            }
            let got = match &p {
                OptionalProperty::None => None,
                OptionalProperty::Some(x) => Some(*x),
            };
            m.check(got == model && p.is_none() == model.is_none(), "sequence", || format!("{ops:?}: {p:?}, expected {model:?}"));
            m.count("operations", 1);
        }
        m.observed(("seq", &ops), model.is_some());
    }
    let (n, z): (OptionalProperty<i64>, OptionalProperty<i64>) = (OptionalProperty::None, OptionalProperty::Some(i64::MIN));
    m.check(n < z && n != z, "order", || "absent compares wrongly with present".into());
    m.require("operations", 1000);
}

// ------------------------------------------------------------------ C05
pub fn c05(m: &mut Mon) {
    m.rule("Exhaustive over the roles and permissions of the global, organisation and project tables, each decided by looking the role up as the permission check does (any row of the role that lists the permission or everything). Non-trivial: every pair; distinct by pair.");
    use OrganizationPermission as OP;
    use OrganizationRole as OR;
    use ProjectPermission as PP;
    use ProjectRole as PR;
    let ops = [OP::ViewOrganization, OP::ManageOrganization, OP::ManageProjects, OP::ExploreProjects, OP::DeleteOrganization, OP::All];
    let pps = [PP::ManageProject, PP::DeleteProject, PP::ViewProject, PP::ManageSchema, PP::DeleteSchema, PP::ViewSchema, PP::InviteMembers, PP::ManageMembers, PP::ExploreReports, PP::ManageReports, PP::All];
    let gps = [Permission::All, Permission::ManageAccounts, Permission::ViewAccounts, Permission::ManageOrganizations, Permission::ViewOrganizations, Permission::ManageProjects, Permission::ManageServer];
    for p in &gps {
        let g = PERMISSIONS.iter().any(|(r, ps)| *r == Role::Admin && (ps.contains(&Permission::All) || ps.contains(p)));
        m.observed(("g", format!("{p:?}")), true);
        m.check(g, "global", || format!("the administrator lacks {p:?}"));
    }
    let org = |r: &OR, p: &OP| ORGANIZATION_PERMISSIONS.iter().any(|(x, ps)| x == r && (ps.contains(&OP::All) || ps.contains(p)));
    for r in [OR::Owner, OR::Admin, OR::Member] {
        for p in &ops {
            let want = match r {
                OR::Owner => true,
                OR::Admin => *p == OP::ManageProjects,
                OR::Member => false,
            };
            m.observed(("o", format!("{r:?}{p:?}")), true);
            m.count("organisation_pairs", 1);
            let got = org(&r, p);
            m.check(got == want, "organisation", || format!("{r:?} {p:?}: granted {got}, expected {want}"));
        }
    }
    let prj = |r: &PR, p: &PP| PROJECT_PERMISSIONS.iter().any(|(x, ps)| x == r && (ps.contains(&PP::All) || ps.contains(p)));
    let roles = [PR::Owner, PR::Admin, PR::Member, PR::Reader];
    for (i, r) in roles.iter().enumerate() {
        for p in &pps {
            let want = match r {
                PR::Owner => true,
                PR::Admin => [PP::ManageProject, PP::InviteMembers, PP::ManageMembers, PP::ExploreReports, PP::ManageReports, PP::ViewSchema, PP::ManageSchema].contains(p),
                PR::Member => [PP::ExploreReports, PP::ManageReports, PP::ViewSchema, PP::ManageSchema].contains(p),
                PR::Reader => [PP::ExploreReports, PP::ViewSchema].contains(p),
            };
            m.observed(("p", format!("{r:?}{p:?}")), true);
            m.count("project_pairs", 1);
            let got = prj(r, p);
            m.check(got == want, "project", || format!("{r:?} {p:?}: granted {got}, expected {want}"));
            if i > 0 {
                m.check(!got || prj(&roles[i - 1], p), "project-order", || format!("{r:?} is granted {p:?}, {:?} is not", roles[i - 1]));
            }
            m.sample(|| json!({"role": format!("{r:?}"), "permission": format!("{p:?}"), "granted": got}));
        }
    }
    // stored forms of roles keep their identity
    for r in [OR::Owner, OR::Admin, OR::Member] {
        let b = bincode::serialize(&r).unwrap();
        m.check(bincode::deserialize::<OR>(&b).ok() == Some(r.clone()), "role-stored", || format!("{r:?}"));
    }
    m.check(OR::Owner as u8 == 1 && OR::Admin as u8 == 2 && OR::Member as u8 == 3, "role-number", || "stored role numbers changed".into());
    m.require("project_pairs", 44);
}

// ------------------------------------------------------------------ C09
pub fn c09(m: &mut Mon) {
    m.rule("Exhaustive over comparison operations, engine operators, aggregate functions and time units, in every direction offered. Non-trivial: every evaluated translation; distinct by (direction, operator). Translations are additionally executed on sample values where the engine operator is a comparison.");
    use PropValueOperation as PV;
    let table = [
        (PV::Eq, Operator::Eq, DFOp::Eq),
        (PV::Neq, Operator::NotEq, DFOp::NotEq),
        (PV::Gt, Operator::Gt, DFOp::Gt),
        (PV::Gte, Operator::GtEq, DFOp::GtEq),
        (PV::Lt, Operator::Lt, DFOp::Lt),
        (PV::Lte, Operator::LtEq, DFOp::LtEq),
        (PV::Regex, Operator::RegexMatch, DFOp::RegexMatch),
        (PV::NotRegex, Operator::RegexNotMatch, DFOp::RegexNotMatch),
    ];
    for (pv, op, df) in &table {
        m.observed(("op", format!("{pv:?}")), true);
        m.count("operators", 1);
        let a = guarded(|| Operator::from(pv.clone()));
        m.check(a.as_ref() == Ok(op), "request-operator", || format!("{pv:?} -> {a:?}, expected {op:?}"));
        let b: Result<Result<DFOp, _>, _> = guarded(|| pv.clone().try_into());
        m.check(matches!(&b, Ok(Ok(x)) if x == df), "request-engine", || format!("{pv:?} -> {b:?}, expected {df:?}"));
        let c = guarded(|| DFOp::from(*op));
        m.check(c.as_ref() == Ok(df), "operator-engine", || format!("{op:?} -> {c:?}, expected {df:?}"));
        let d = guarded(|| Operator::from(*df));
        m.check(d.as_ref() == Ok(op), "engine-operator", || format!("{df:?} -> {d:?}, expected {op:?}"));
        m.check(!pv.is_without_value(), "valued", || format!("{pv:?} is said to take no value"));
        m.sample(|| json!({"request": format!("{pv:?}"), "engine": format!("{b:?}")}));
        // same truth table as the meaning of the request operation
        if let Ok(Ok(x)) = b {
            for (l, r) in [(1, 2), (2, 2), (3, 2)] {
                let t = match x {
                    DFOp::Eq => l == r,
                    DFOp::NotEq => l != r,
                    DFOp::Gt => l > r,
                    DFOp::GtEq => l >= r,
                    DFOp::Lt => l < r,
                    DFOp::LtEq => l <= r,
                    _ => continue,
                };
                let w = match pv {
                    PV::Eq => l == r,
                    PV::Neq => l != r,
                    PV::Gt => l > r,
                    PV::Gte => l >= r,
                    PV::Lt => l < r,
                    PV::Lte => l <= r,
                    _ => continue,
                };
                m.check(t == w, "meaning", || format!("{pv:?} {l} {r}: {t}"));
            }
        }
    }
    for pv in &gen::OPS {
        let want = [PV::True, PV::False, PV::Exists, PV::Empty].contains(pv);
        m.observed(("noval", format!("{pv:?}")), true);
        m.check(pv.is_without_value() == want, "without-value", || format!("{pv:?}.is_without_value() != {want}"));
        if !table.iter().any(|t| &t.0 == pv) {
            let a = guarded(|| Operator::from(pv.clone()));
            m.check(a.is_err(), "unsupported-operation", || format!("{pv:?} became {a:?}"));
            let b: Result<Result<DFOp, _>, _> = guarded(|| pv.clone().try_into());
            let ok = match (&b, pv) {
                (Ok(Ok(DFOp::LikeMatch)), PV::Like) | (Ok(Ok(DFOp::NotLikeMatch)), PV::NotLike) => true,
                (Ok(Ok(_)), _) => false,
                _ => true,
            };
            m.count("refused", 1);
            m.check(ok, "unsupported-operation-engine", || format!("{pv:?} became {b:?}"));
        }
    }
    for df in [DFOp::Plus, DFOp::Minus, DFOp::Multiply, DFOp::Divide, DFOp::Modulo, DFOp::And, DFOp::Or, DFOp::IsDistinctFrom, DFOp::IsNotDistinctFrom, DFOp::RegexIMatch, DFOp::RegexNotIMatch, DFOp::LikeMatch, DFOp::ILikeMatch, DFOp::NotLikeMatch, DFOp::NotILikeMatch, DFOp::BitwiseAnd, DFOp::BitwiseOr, DFOp::StringConcat, DFOp::AtArrow, DFOp::ArrowAt] {
        let r = guarded(|| Operator::from(df));
        m.observed(("df", format!("{df:?}")), true);
        m.count("refused", 1);
        m.check(r.is_err(), "unsupported-engine", || format!("{df:?} became {r:?}"));
    }
    for (a, d) in [(AggregateFunction::Count, DFAgg::Count), (AggregateFunction::Min, DFAgg::Min), (AggregateFunction::Max, DFAgg::Max), (AggregateFunction::Avg, DFAgg::Avg)] {
        m.observed(("agg", format!("{a:?}")), true);
        let x = guarded(|| DFAgg::from(a.clone()));
        m.check(x.as_ref() == Ok(&d), "aggregate-engine", || format!("{a:?} -> {x:?}"));
        let y = guarded(|| AggregateFunction::from(d.clone()));
        m.check(y.as_ref() == Ok(&a), "engine-aggregate", || format!("{d:?} -> {y:?}"));
    }
    for d in [DFAgg::ArrayAgg, DFAgg::NthValue, DFAgg::Correlation, DFAgg::Grouping, DFAgg::BitAnd, DFAgg::BoolOr] {
        let r = guarded(|| AggregateFunction::from(d.clone()));
        m.observed(("dfagg", format!("{d:?}")), true);
        m.check(r.is_err(), "unsupported-aggregate", || format!("{d:?} became {r:?}"));
    }
    // sum has no engine enumeration value: it must not become another function
    let r = guarded(|| DFAgg::from(AggregateFunction::Sum));
    m.check(!matches!(r, Ok(DFAgg::Count | DFAgg::Min | DFAgg::Max | DFAgg::Avg)), "aggregate-sum", || format!("Sum became {r:?}"));
    for q in &gen::QAGG {
        let r = guarded(|| q.aggregate_function());
        m.observed(("qagg", format!("{q:?}")), true);
        let ok = match q {
            QueryAggregate::Min => r == Ok(AggregateFunction::Min),
            QueryAggregate::Max => r == Ok(AggregateFunction::Max),
            QueryAggregate::Sum => r == Ok(AggregateFunction::Sum),
            QueryAggregate::Avg => r == Ok(AggregateFunction::Avg),
            _ => r.is_err(),
        };
        m.check(ok, "query-aggregate", || format!("{q:?} became {r:?}"));
    }
    for (a, d, s) in [
        (AggregateFunction::Count, PartitionedAggregateFunction::Count, "COUNT"),
        (AggregateFunction::Sum, PartitionedAggregateFunction::Sum, "SUM"),
        (AggregateFunction::Min, PartitionedAggregateFunction::Min, "MIN"),
        (AggregateFunction::Max, PartitionedAggregateFunction::Max, "MAX"),
        (AggregateFunction::Avg, PartitionedAggregateFunction::Avg, "AVG"),
    ] {
        m.check(a.to_string() == s && d.to_string() == s, "aggregate-name", || format!("{a} {d}, expected {s}"));
    }
    for (a, d) in [
        (TimeUnit::Second, arrow_schema::TimeUnit::Second),
        (TimeUnit::Millisecond, arrow_schema::TimeUnit::Millisecond),
        (TimeUnit::Microsecond, arrow_schema::TimeUnit::Microsecond),
        (TimeUnit::Nanosecond, arrow_schema::TimeUnit::Nanosecond),
    ] {
        m.observed(("tu", format!("{a:?}")), true);
        let x: Result<arrow_schema::TimeUnit, _> = a.clone().try_into();
        m.check(matches!(&x, Ok(y) if *y == d), "time-unit", || format!("{a:?} -> {x:?}"));
        let x: Result<TimeUnit, _> = d.clone().try_into();
        m.check(matches!(&x, Ok(y) if *y == a), "time-unit-back", || format!("{d:?} -> {x:?}"));
    }
    let u = [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year];
    for i in &u {
        let c = fu::ChartType::ConversionOverTime { interval_unit: i.clone() };
        let t = fu::ChartType::TimeToConvert { interval_unit: i.clone(), min_interval: 1, max_interval: 2 };
        m.check(c.clone().time_interval().as_ref() == Some(i) && t.clone().time_interval().as_ref() == Some(i), "chart-interval", || format!("{c:?}/{t:?}"));
    }
    m.check(fu::ChartType::Steps.time_interval().is_none() && fu::ChartType::Frequency.time_interval().is_none(), "chart-interval-none", || "step charts have an interval".into());
    m.require("operators", 8);
}

// ------------------------------------------------------------------ C13
pub fn c13(m: &mut Mon) {
    m.rule("All query kinds over all functions and random property names; labels are compared with the functions and names they must show and pairwise for distinctness within a kind. Non-trivial: queries with a property; distinct by query.");
    let mut rng = m.rng.fork();
    let aggs = [(AggregateFunction::Count, "COUNT"), (AggregateFunction::Sum, "SUM"), (AggregateFunction::Min, "MIN"), (AggregateFunction::Max, "MAX"), (AggregateFunction::Avg, "AVG")];
    let paggs = [(PartitionedAggregateFunction::Count, "COUNT"), (PartitionedAggregateFunction::Sum, "SUM"), (PartitionedAggregateFunction::Avg, "AVG"), (PartitionedAggregateFunction::Min, "MIN"), (PartitionedAggregateFunction::Max, "MAX")];
    let mut raw: HashMap<&'static str, &'static str> = HashMap::new();
    raw.insert("count", common::types::RESERVED_COLUMN_COUNT);
    raw.insert("partitioned_count", common::types::RESERVED_COLUMN_AGG_PARTITIONED_COUNT);
    raw.insert("partitioned_agg", common::types::RESERVED_COLUMN_AGG_PARTITIONED_AGGREGATE);
    raw.insert("agg", common::types::RESERVED_COLUMN_AGG);
    for (k, v) in &raw {
        m.check(k == v, "reserved", || format!("reserved column {v} is not {k}"));
    }
    let expect = |m: &mut Mon, q: &es::Query, label: Option<String>, raw: Option<&str>| {
        let n = guarded(|| q.name());
        let i = guarded(|| q.initial_name().to_string());
        if let Some(l) = label {
            m.check(n.as_ref() == Ok(&l), "label", || format!("{q:?} is labelled {n:?}, expected {l:?}"));
        }
        match raw {
            Some(r) => m.check(i.as_deref() == Ok(r), "raw-name", || format!("{q:?} is looked up as {i:?}, expected {r:?}")),
            None => m.check(i.is_err(), "raw-name-unsupported", || format!("{q:?} has no result of its own but is looked up as {i:?}")),
        }
        m.count("labels", 1);
        m.sample(|| json!({"query": format!("{q:?}"), "label": n.ok(), "raw": i.ok()}));
    };
    expect(m, &es::Query::CountEvents, Some("Count".into()), Some("count"));
    expect(m, &es::Query::CountUniqueGroups, Some("Count unique".into()), Some("partitioned_count"));
    expect(m, &es::Query::DailyActiveGroups, Some("Daily active".into()), Some("partitioned_count"));
    expect(m, &es::Query::WeeklyActiveGroups, Some("Weekly active".into()), None);
    expect(m, &es::Query::MonthlyActiveGroups, Some("Monthly active".into()), None);
    for ((a, s), t) in aggs.iter().zip(["Count", "Sum", "Min", "Max", "Avg"]) {
        let _ = s;
        let q = es::Query::CountPerGroup { aggregate: a.clone() };
        m.observed(format!("{q:?}"), true);
        expect(m, &q, Some(t.to_string()), Some("partitioned_count"));
    }
    for _ in 0..m.n(300, 20_000) {
        let name = rng.string();
        let pr = if rng.bool() { PropertyRef::Event(name.clone()) } else { PropertyRef::Group(name.clone(), rng.below(5)) };
        let nm = guarded(|| pr.name());
        m.check(nm.as_ref() == Ok(&name), "property-name", || format!("{pr:?} is named {nm:?}"));
        let mut seen: HashMap<String, es::Query> = HashMap::new();
        for (a, s) in &aggs {
            let q = es::Query::AggregateProperty { property: pr.clone(), aggregate: a.clone() };
            m.observed(format!("{q:?}"), true);
            expect(m, &q, Some(format!("{s}({name})")), Some("agg"));
            for (p, t) in &paggs {
                let q = es::Query::AggregatePropertyPerGroup { property: pr.clone(), aggregate_per_group: p.clone(), aggregate: a.clone() };
                m.observed(format!("{q:?}"), true);
                expect(m, &q, Some(format!("{s}({t}({name}))")), Some("partitioned_agg"));
                if let Ok(l) = guarded(|| q.name()) {
                    if let Some(o) = seen.insert(l.clone(), q.clone()) {
                        m.violation("label-shared", format!("{o:?} and {q:?} are both labelled {l}"), json!(null));
                    }
                }
            }
        }
        let f = rng.string();
        expect(m, &es::Query::QueryFormula { formula: f.clone() }, Some(f), None);
        let id = rng.next();
        for (e, w) in [(EventRef::RegularName(name.clone()), name.clone()), (EventRef::Regular(id), id.to_string()), (EventRef::Custom(id), id.to_string())] {
            let g = guarded(|| e.name());
            m.check(g.as_ref() == Ok(&w), "event-name", || format!("{e:?} is named {g:?}"));
        }
        let nq = es::NamedQuery::new(es::Query::CountEvents, Some(name.clone()));
        m.check(nq.name.as_ref() == Some(&name) && nq.agg == es::Query::CountEvents, "named-query", || format!("{nq:?}"));
    }
    m.check(common::group_col(3) == "group_3" && common::group_col(0) == "group_0", "group-column", || "group column names".into());
    m.require("labels", 100);
}
