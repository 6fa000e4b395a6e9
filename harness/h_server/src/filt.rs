//! Which filters are accepted: every operation and kind of value against properties of every type, in
//! every place of a request that takes filters.
use std::time::Duration;
use std::time::Instant;

use common::types::DType;
use metadata::properties::CreatePropertyRequest;
use metadata::properties::DictionaryType;
use metadata::properties::Status;
use metadata::properties::Type;
use metadata::properties::UpdatePropertyRequest;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value as Json;

use crate::perm::short;
use crate::server::Resp;
use crate::server::Server;

const OPS: [&str; 14] =
    ["eq", "neq", "gt", "gte", "lt", "lte", "true", "false", "exists", "empty", "regex", "like", "notLike", "notRegex"];
const VALUES: [&str; 17] = [
    "missing", "none", "text", "texts", "empty text", "whole", "wholes", "huge", "negative", "fraction", "bool", "bools", "null",
    "array", "object", "mixed", "single",
];
const PLACES: [&str; 10] = [
    "events searched", "search", "events of a segmentation", "segmentation", "steps", "exclude", "funnel", "values", "group records",
    "custom event",
];
#[derive(Clone, Debug)]
struct P {
    /// as a request names it
    r: Json,
    t: String,
    nullable: bool,
    /// of which group, if of any
    group: Option<usize>,
    known: Known,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Known {
    Yes,
    No,
    /// of a kind that is not there yet
    NotYet,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Accepted,
    Refused,
    /// either, as long as it is an answer
    Any,
}
struct W {
    s: Server,
    org: u64,
    base: String,
    props: Vec<P>,
    n: usize,
}
fn create(s: &Server, pid: u64, group: Option<usize>, name: &str, dt: DType, nullable: bool) {
    let text = dt == DType::String;
    let typ = group.map(Type::Group).unwrap_or(Type::Event);
    let req = CreatePropertyRequest {
        created_by: 1,
        tags: None,
        name: name.to_string(),
        description: None,
        display_name: None,
        typ,
        data_type: dt,
        status: Status::Enabled,
        hidden: false,
        is_system: false,
        nullable: true,
        is_array: false,
        is_dictionary: text,
        dictionary_type: text.then_some(DictionaryType::Int64),
    };
    let of = match group {
        None => &s.md.event_properties,
        Some(g) => &s.md.group_properties[g],
    };
    let p = of.create(pid, req).unwrap_or_else(|e| panic!("harness: {name}: {e:?}"));
    if !nullable {
        let mut u = UpdatePropertyRequest::default();
        u.nullable.insert(false);
        of.update(pid, p.id, u).unwrap_or_else(|e| panic!("harness: {name}: {e:?}"));
    }
}
const TYPES: [(&str, DType); 8] = [
    ("int8", DType::Int8),
    ("int16", DType::Int16),
    ("int32", DType::Int32),
    ("int64", DType::Int64),
    ("decimal", DType::Decimal),
    ("timestamp", DType::Timestamp),
    ("boolean", DType::Boolean),
    ("string", DType::String),
];
impl W {
    fn new(r: &mut Rng) -> W {
        let s = Server::new();
        s.admin();
        let org = s.org("org");
        let (pid, sdk) = s.project(org, "p", 7200);
        let mut w = W { s, org, base: format!("/api/v1/projects/{pid}"), props: vec![], n: 0 };
        w.send_some(r, &sdk, 1);
        for group in [None, Some(0), Some(1)] {
            for (t, dt) in TYPES {
                create(&w.s, pid, group, &format!("maybe {t}"), dt.clone(), true);
                if matches!(t, "decimal" | "timestamp" | "boolean" | "string") {
                    create(&w.s, pid, group, &format!("always {t}"), dt, false);
                }
            }
        }
        let n = r.range(3, 9);
        w.send_some(r, &sdk, n);
        for group in [None, Some(0), Some(1)] {
            let path = match group {
                None => "schema/event-properties".to_string(),
                Some(g) => format!("schema/group-properties/{g}"),
            };
            let x = w.api("GET", &path, &Json::Null).unwrap();
            let mut l = x.json["data"].as_array().cloned().unwrap_or_else(|| panic!("harness: {x:?}"));
            r.shuffle(&mut l);
            l.sort_by_key(|p| !["maybe ", "always "].iter().any(|a| p["name"].as_str().unwrap_or("").starts_with(a)));
            let mut kinds: Vec<(Json, Json)> = vec![];
            for p in l {
                let kind = (p["dataType"].clone(), p["nullable"].clone());
                if kinds.iter().filter(|k| **k == kind).count() == 2 {
                    continue;
                }
                kinds.push(kind);
                let name = p["name"].as_str().unwrap();
                w.props.push(P {
                    r: refer(name, group),
                    t: p["dataType"].as_str().unwrap_or_else(|| panic!("harness: {p}")).to_lowercase(),
                    nullable: p["nullable"].as_bool().unwrap_or_else(|| panic!("harness: {p}")),
                    group,
                    known: Known::Yes,
                });
            }
        }
        // what was asked for is what there is
        for (t, _) in TYPES {
            for group in [None, Some(0), Some(1)] {
                let named = refer(&format!("maybe {t}"), group);
                assert!(w.props.iter().any(|p| p.r == named && p.t == t && p.nullable), "harness: {named} {t} {:?}", w.props);
            }
        }
        for (r, group, known) in [
            (refer("unheard of", None), None, Known::No),
            (refer("unheard of", Some(0)), Some(0), Known::No),
            (refer("Maybe String", Some(1)), Some(1), Known::No),
            (refer("maybe string", Some(4)), Some(4), Known::No),
            (refer("maybe string", Some(77)), Some(77), Known::No),
            (json!({"propertyType": "custom", "propertyId": 1}), None, Known::NotYet),
        ] {
            w.props.push(P { r, t: "string".into(), nullable: true, group, known });
        }
        w
    }
    /// Events and records that have what never is missing.
    fn send_some(&self, r: &mut Rng, sdk: &str, n: i64) {
        for i in 0..n {
            let mut props = json!({});
            for (t, _) in TYPES {
                let v = match t {
                    "decimal" => json!(r.range(-50, 50) as f64 / 4.0),
                    "timestamp" => json!(format!("2024-05-{:02}T07:08:09Z", r.range(1, 29))),
                    "boolean" => json!(r.bool()),
                    "string" => json!(*r.pick(&["red", "green", "blue"])),
                    _ => continue,
                };
                props[format!("always {t}")] = v.clone();
                if r.bool() {
                    props[format!("maybe {t}")] = v;
                }
            }
            if n == 1 {
                props = json!({});
            }
            let user = format!("u{}", i % 3);
            let all = [
                ("identify", json!({"group": "company", "id": "c1", "context": {}, "properties": props})),
                ("identify", json!({"group": "user", "id": user, "context": {}, "properties": props})),
                ("track", json!({"event": "bought", "userId": user, "context": {}, "groups": {"company": "c1"}, "properties": props})),
                ("track", json!({"event": "viewed", "userId": user, "context": {}, "properties": props})),
            ];
            for (path, b) in all {
                let x = self
                    .s
                    .call("POST", &format!("/api/v1/ingest/{sdk}/{path}"), &[("content-type", "application/json")], &b.to_string())
                    .unwrap_or_else(|e| panic!("harness: {e}"));
                assert!(x.ok(), "harness: {b} {x:?}");
            }
        }
    }
    fn api(&self, method: &str, path: &str, body: &Json) -> Result<Resp, String> {
        self.s.api(self.s.admin(), self.org, method, &format!("{}/{path}", self.base), body)
    }
}
fn refer(name: &str, group: Option<usize>) -> Json {
    match group {
        None => json!({"propertyType": "event", "propertyName": name}),
        Some(g) => json!({"propertyType": "group", "propertyName": name, "group": g}),
    }
}
fn values(r: &mut Rng, kind: &str) -> Option<Json> {
    let text = |r: &mut Rng| json!(*r.pick(&["red", "green", "other", "%e%", "[a-z]+"]));
    let whole = |r: &mut Rng| json!(r.range(0, 100));
    Some(match kind {
        "missing" => return None,
        "none" => json!([]),
        "text" => json!([text(r)]),
        "texts" => json!([text(r), text(r)]),
        "empty text" => json!([""]),
        "whole" => json!([whole(r)]),
        "wholes" => json!([whole(r), 0, whole(r)]),
        "huge" => json!([*r.pick(&[128i64, -129, 32768, 1 << 31, 1 << 40, 1_700_000_000_000])]),
        "negative" => json!([-r.range(1, 100)]),
        "fraction" => json!([whole(r), r.range(0, 50) as f64 + 0.5]),
        "bool" => json!([r.bool()]),
        "bools" => json!([true, false]),
        "null" => json!([null]),
        "array" => json!([["red"]]),
        "object" => json!([{"a": 1}]),
        "mixed" => {
            let mut l = vec![text(r), whole(r), json!(r.bool())];
            l.remove(r.range(0, 2) as usize);
            r.shuffle(&mut l);
            json!(l)
        }
        _ => {
            let v = text(r);
            r.pick(&[v, json!(3), json!(true)]).clone()
        }
    })
}
fn expected(p: &P, op: &str, v: &Option<Json>) -> Answer {
    use Answer::*;
    // a value that is not in a list is not of the form asked for
    if v.as_ref().is_some_and(|v| !v.is_array()) {
        return Any;
    }
    if p.known != Known::Yes {
        return Refused;
    }
    let numeric = matches!(p.t.as_str(), "int8" | "int16" | "int32" | "int64" | "decimal");
    let fits = match op {
        "gt" | "gte" | "lt" | "lte" => numeric || p.t == "timestamp",
        "true" | "false" => p.t == "boolean",
        "exists" | "empty" => p.nullable,
        "regex" | "like" | "notLike" | "notRegex" => p.t == "string",
        _ => true,
    };
    if !fits {
        return Refused;
    }
    let l: Vec<&Json> = v.iter().filter_map(|v| v.as_array()).flatten().collect();
    if l.is_empty() && !matches!(op, "true" | "false" | "exists" | "empty") {
        return Refused;
    }
    for v in l {
        let fits = match v {
            Json::Null => false,
            Json::Bool(_) => p.t == "boolean",
            Json::Number(n) => numeric || p.t == "timestamp" && n.is_i64(),
            Json::String(_) => p.t == "string",
            _ => false,
        };
        if !fits {
            return Refused;
        }
    }
    Accepted
}
/// Filters that surely are accepted.
fn fine(r: &mut Rng, w: &W, group: Option<usize>) -> Json {
    let mut l: Vec<(&P, &str, Json)> = vec![];
    for p in &w.props {
        if group.is_some() && p.group != group || p.known != Known::Yes {
            continue;
        }
        match p.r["propertyName"].as_str().unwrap() {
            "maybe string" => l.push((p, "eq", json!(["red"]))),
            "maybe decimal" => l.push((p, "lt", json!([17]))),
            "maybe boolean" => l.push((p, "exists", json!([]))),
            _ => {}
        }
    }
    let (p, op, v) = r.pick(&l);
    filter(&p.r, op, &Some(v.clone()))
}
fn filter(p: &Json, op: &str, v: &Option<Json>) -> Json {
    let mut f = p.clone();
    f["type"] = json!("property");
    f["operation"] = json!(op);
    if let Some(v) = v {
        f["value"] = v.clone();
    }
    f
}
fn world(m: &mut Mon, r: &mut Rng, secs: f64) {
    let t = Instant::now();
    let mut w = W::new(r);
    let mut all: Vec<(usize, &str, &str)> = vec![];
    for p in 0..w.props.len() {
        for op in OPS {
            for v in VALUES {
                all.push((p, op, v));
            }
        }
    }
    r.shuffle(&mut all);
    for (i, op, kind) in all {
        if t.elapsed() > Duration::from_secs_f64(secs) {
            break;
        }
        let p = w.props[i].clone();
        let v = values(r, kind);
        let f = filter(&p.r, op, &v);
        let mut want = expected(&p, op, &v);
        let place = *r.pick(&PLACES);
        // the group searched is the property's, or another
        let mut group = p.group.unwrap_or(0);
        if place == "group records" && (r.chance(1, 8) || group > 1) {
            group = r.range(0, 1) as usize;
        }
        if place == "group records" && p.group != Some(group) && want == Answer::Accepted {
            want = Answer::Refused;
        }
        // others before and after it
        let own = (place == "group records").then_some(group);
        let mut l = vec![f.clone()];
        while r.chance(1, 3) {
            let x = fine(r, &w, own);
            if r.bool() {
                l.push(x)
            } else {
                l.insert(0, x)
            }
        }
        let mut groups = vec![json!({"filtersCondition": "and", "filters": l})];
        if r.chance(1, 6) {
            let x = fine(r, &w, own);
            groups.insert(0, json!({"filtersCondition": "and", "filters": [x]}));
        }
        let groups = json!({"groupsCondition": "and", "groups": groups});
        let last = json!({"type": "last", "last": 3, "unit": "day"});
        let name = *r.pick(&["bought", "viewed"]);
        let ev = json!({"eventType": "regular", "eventName": name, "filters": l});
        let mut seg = crate::perm::segmentation(name);
        let mut fun = crate::perm::funnel(name);
        let mut change = None;
        let (path, b): (&str, Json) = match place {
            "events searched" => {
                let mut l = vec![ev.clone()];
                if r.chance(1, 4) {
                    l.insert(0, json!({"eventType": "regular", "eventName": "viewed"}));
                }
                ("event-records/search", json!({"time": last, "events": l}))
            }
            "search" => ("event-records/search", json!({"time": last, "filters": groups})),
            "events of a segmentation" => {
                seg["events"][0]["filters"] = json!(l);
                if r.chance(1, 4) {
                    let first = crate::perm::segmentation("viewed")["events"][0].clone();
                    seg["events"].as_array_mut().unwrap().insert(0, first);
                }
                ("queries/event-segmentation", seg)
            }
            "segmentation" => {
                seg["filters"] = groups;
                ("queries/event-segmentation", seg)
            }
            "steps" => {
                let other = fun["steps"][0].clone();
                fun["steps"][0]["events"] = json!([ev]);
                if r.bool() {
                    fun["steps"].as_array_mut().unwrap().insert(r.range(0, 1) as usize, other);
                }
                ("queries/funnel", fun)
            }
            "exclude" => {
                let mut l = vec![ev.clone()];
                if r.chance(1, 4) {
                    l.insert(0, json!({"eventType": "regular", "eventName": "viewed"}));
                }
                fun["exclude"] = json!(l);
                ("queries/funnel", fun)
            }
            "funnel" => {
                fun["filters"] = groups;
                ("queries/funnel", fun)
            }
            "values" => {
                let mut b = p.r.clone();
                b["filter"] = json!({"operation": op});
                if let Some(v) = &v {
                    b["filter"]["value"] = v.clone();
                }
                if r.bool() && p.group.is_none() {
                    b["eventType"] = json!("regular");
                    b["eventName"] = json!(name);
                }
                ("property-values", b)
            }
            "group records" => ("group-records/search", json!({"group": group, "filters": groups})),
            _ => {
                w.n += 1;
                if w.n % 3 == 0 {
                    change = w.api("POST", "schema/custom-events", &json!({"name": format!("c{}", w.n), "status": "enabled", "isSystem": false, "events": [{"eventType": "regular", "eventName": "viewed"}]}))
                        .ok()
                        .and_then(|x| x.json["id"].as_u64());
                }
                ("schema/custom-events", json!({"name": format!("c{}", w.n), "status": "enabled", "isSystem": false, "events": [ev]}))
            }
        };
        let before = w.s.kv.dump();
        let mut got = match change {
            Some(id) => w.api("PUT", &format!("{path}/{id}"), &json!({"events": b["events"]})),
            None => w.api("POST", path, &b),
        };
        let mut asked = b.clone();
        if place == "custom event" {
            // taken or not, it must be possible to ask for it
            let id = match &got {
                Ok(x) if x.ok() => x.json["id"].as_u64(),
                _ => None,
            };
            if let Some(id) = id {
                want = if want == Answer::Accepted { want } else { Answer::Any };
                let own = json!({"eventType": "custom", "eventId": id});
                let mut seg = crate::perm::segmentation("bought");
                seg["events"][0] = crate::trans::with(json!({"queries": [{"type": "countEvents"}]}), own.clone());
                let (path, b) = if r.bool() {
                    ("queries/event-segmentation", seg)
                } else {
                    ("event-records/search", json!({"time": last, "events": [own]}))
                };
                asked = json!([b, ev]);
                got = w.api("POST", path, &b);
            } else if want == Answer::Refused {
                m.count("custom events refused", 1);
            }
        }
        let status = got.as_ref().map(|x| x.status).unwrap_or(0);
        let what = format!("{op} of {kind} on {}{} in {place}", if p.nullable { "nullable " } else { "" }, if p.known == Known::Yes { p.t.as_str() } else { "nothing" });
        m.observed(mon::hash_of(&format!("{what} {status}")), status == 200);
        m.count(&format!("in {place}"), 1);
        if std::env::var("SHOW").is_ok() {
            eprintln!("SHOW {status} {want:?} {what}");
        }
        let input = json!({"place": place, "property": p.r, "type": p.t, "nullable": p.nullable, "request": asked});
        match got {
            Err(e) => m.violation(&format!("crash: {op} {kind} {}", p.t), format!("{what}: {}", short(&e)), input.clone()),
            Ok(x) => match (want, x.status) {
                (Answer::Accepted, 200) => m.count("filters accepted", 1),
                (Answer::Refused, 400) => m.count("filters refused", 1),
                (Answer::Refused, 501) if matches!(kind, "array" | "object") || p.known == Known::NotYet => m.count("filters refused", 1),
                (Answer::Any, 200 | 400 | 422 | 501) => m.count("filters answered", 1),
                _ => m.violation(
                    &format!("{want:?} {op} {kind} {}", p.t),
                    format!("{what} must be {want:?}, but got {} {}", x.status, short(&x.text)),
                    input.clone(),
                ),
            },
        }
        if want == Answer::Refused && status / 100 == 4 && w.s.kv.dump() != before {
            m.violation("refused and kept", format!("{what} was refused, but changed something"), input);
        }
    }
    m.sample(|| json!({"properties": w.props.len()}));
    w.s.discard();
}
pub fn run(m: &mut Mon, r: &mut Rng, secs: (f64, f64)) {
    let t = Instant::now();
    let limit = if m.thorough() { secs.1 } else { secs.0 };
    while t.elapsed().as_secs_f64() < limit {
        let mut r = r.fork();
        world(m, &mut r, limit - t.elapsed().as_secs_f64());
        m.count("worlds", 1);
    }
}
