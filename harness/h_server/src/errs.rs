//! What a failure is answered with: every kind of error, and requests of every route that are wrong in
//! some way.
use std::collections::BTreeMap;
use std::time::Duration;
use std::time::Instant;

use axum::response::IntoResponse;
use common::error::CommonError;
use metadata::error::MetadataError;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use platform::error::AuthError;
use platform::error::PlatformError as PE;
use query::error::QueryError;
use serde_json::json;
use serde_json::Value as Json;

use crate::perm::short;
use crate::server::Resp;
use crate::server::Server;
use crate::trans;

fn serde_error() -> serde_json::Error {
    serde_json::from_str::<Json>("{").unwrap_err()
}
fn io() -> std::io::Error {
    std::io::Error::other("io")
}
fn frame() -> datafusion_common::DataFusionError {
    datafusion_common::DataFusionError::Execution("x".into())
}
fn metadata_errors() -> Vec<(&'static str, MetadataError, u16)> {
    use MetadataError as E;
    vec![
        ("metadata already exists", E::AlreadyExists("x".into()), 409),
        ("metadata not found", E::NotFound("x".into()), 404),
        ("metadata bad request", E::BadRequest("x".into()), 400),
        ("metadata forbidden", E::Forbidden("x".into()), 403),
        ("metadata internal", E::Internal("x".into()), 500),
        ("metadata utf8", E::FromUtf8(String::from_utf8(vec![255]).unwrap_err()), 500),
        ("metadata io", E::Io(io()), 500),
        ("metadata store", E::Store(storage::error::StoreError::Io(io())), 500),
    ]
}
fn common_errors() -> Vec<(&'static str, CommonError, u16)> {
    use CommonError as E;
    vec![
        ("common bad request", E::BadRequest("x".into()), 400),
        ("common serde", E::Serde(serde_error()), 400),
        ("common general", E::General("x".into()), 500),
        ("common entity", E::EntityMapping, 500),
        ("common datafusion", E::DataFusionError(frame()), 500),
    ]
}
fn kinds() -> Vec<(&'static str, PE, u16)> {
    let fields: BTreeMap<String, String> = [("a".to_string(), "b".to_string()), ("c".to_string(), "d".to_string())].into_iter().collect();
    let mut l = vec![
        ("invalid fields", PE::InvalidFields(fields), 400),
        ("bad request", PE::BadRequest("x".into()), 400),
        ("unimplemented", PE::Unimplemented("x".into()), 501),
        ("already exists", PE::AlreadyExists("x".into()), 409),
        ("unauthorized", PE::Unauthorized("x".into()), 401),
        ("forbidden", PE::Forbidden("x".into()), 403),
        ("not found", PE::NotFound("x".into()), 404),
        ("internal", PE::Internal("x".into()), 500),
        ("entity map", PE::EntityMap("x".into()), 500),
        ("serde", PE::Serde(serde_error()), 400),
        ("decimal", PE::Decimal(rust_decimal::Error::ExceedsMaximumPossibleValue), 400),
        ("auth credentials", PE::Auth(AuthError::InvalidCredentials), 401),
        ("auth refresh token", PE::Auth(AuthError::InvalidRefreshToken), 401),
        ("auth header", PE::Auth(AuthError::CantParseBearerHeader), 401),
        ("auth token", PE::Auth(AuthError::CantParseAccessToken), 401),
        ("auth hashing", PE::Auth(AuthError::InvalidPasswordHashing), 500),
        ("auth make access", PE::Auth(AuthError::CantMakeAccessToken), 500),
        ("auth make refresh", PE::Auth(AuthError::CantMakeRefreshToken), 500),
        ("query not found", PE::Query(QueryError::NotFound("x".into())), 404),
        ("query unimplemented", PE::Query(QueryError::Unimplemented("x".into())), 501),
        ("query internal", PE::Query(QueryError::Internal("x".into())), 500),
        ("query plan", PE::Query(QueryError::Plan("x".into())), 500),
        ("query execution", PE::Query(QueryError::Execution("x".into())), 500),
        ("query datafusion", PE::Query(QueryError::DataFusion(frame())), 500),
        ("query store", PE::Query(QueryError::Store(storage::error::StoreError::Io(io()))), 500),
    ];
    l.extend(metadata_errors().into_iter().map(|(n, e, s)| (n, PE::Metadata(e), s)));
    l.extend(metadata_errors().into_iter().map(|(n, e, s)| (n, PE::Query(QueryError::Metadata(e)), s)));
    l.extend(common_errors().into_iter().map(|(n, e, s)| (n, PE::Common(e), s)));
    l.extend(common_errors().into_iter().map(|(n, e, s)| (n, PE::Query(QueryError::Common(e)), s)));
    l
}
/// Every kind, alone and wrapped around others, answered.
fn each(m: &mut Mon, r: &mut Rng) {
    let n = kinds().len();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for i in 0..n {
        for depth in 0..4usize {
            let (name, e, want) = kinds().swap_remove(i);
            // wrapped into it: whatever caused it
            let mut inside = vec![];
            let mut cause: Option<PE> = None;
            for _ in 0..depth {
                let j = r.below(n);
                let (n, x, _) = kinds().swap_remove(j);
                inside.push(n);
                cause = Some(match cause {
                    None => x,
                    Some(c) => c.wrap_into(x),
                });
            }
            let e = match cause {
                None => e,
                Some(c) => c.wrap_into(e),
            };
            let what = format!("{name} around {inside:?}");
            m.count("errors answered", 1);
            m.observed(mon::hash_of(&what), true);
            let got = guarded(|| {
                let x = e.into_response();
                let status = x.status().as_u16();
                let body = rt.block_on(axum::body::to_bytes(x.into_body(), 1 << 20)).unwrap();
                (status, serde_json::from_slice::<Json>(&body).unwrap_or(Json::Null))
            });
            match got {
                Err(e) => m.violation("crash", format!("{what}: {}", short(&e)), json!({"error": what})),
                Ok((status, body)) => {
                    if status != want {
                        m.violation("status of an error", format!("{what}: {status}, not {want}"), json!({"error": what}));
                    }
                    if body["error"]["status"] != json!(want) {
                        m.violation("status inside", format!("{what}: the answer says {body}"), json!({"error": what}));
                    }
                    let fields = if name == "invalid fields" { json!({"a": "b", "c": "d"}) } else { Json::Null };
                    if body["error"]["fields"] != fields {
                        m.violation("fields of an error", format!("{what}: the answer says {body}"), json!({"error": what}));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- requests of every route
struct W {
    s: Server,
    admin: u64,
    org: u64,
    base: String,
    pid: u64,
    /// an account with an address and a password
    account: u64,
    email: String,
    /// ids of what there is
    ids: BTreeMap<&'static str, Vec<u64>>,
    n: usize,
}
const EVENTS: [&str; 3] = ["bought", "viewed", "left"];
const PROPS: [(&str, u8); 4] = [("a text", b's'), ("a number", b'n'), ("a flag", b'b'), ("a time", b't')];
const PASSWORD: &str = "correct horse 12";
struct Call {
    method: &'static str,
    path: String,
    body: Json,
    /// what must be there in the body
    required: &'static [&'static str],
    /// the status, when all is right
    good: u16,
    name: &'static str,
}
impl W {
    fn new(r: &mut Rng) -> W {
        let s = Server::new();
        let admin = s.admin();
        let org = s.org("org");
        let (pid, sdk) = s.project(org, "p", 7200);
        let email = "someone@example.com".to_string();
        let mut w = W { s, admin, org, base: format!("/api/v1/projects/{pid}"), pid, account: 0, email, ids: Default::default(), n: 0 };
        let b = json!({
            "email": w.email, "password": PASSWORD, "forceUpdatePassword": false, "forceUpdateEmail": false,
            "organizations": [[org, "Owner"]], "projects": [[pid, "Owner"]]
        });
        let x = w.send("POST", "/api/v1/accounts", &b).unwrap();
        assert!(x.ok(), "harness: {x:?}");
        w.account = x.json["id"].as_u64().unwrap();
        w.ids.insert("accounts", vec![w.account]);
        w.ids.insert("projects", vec![pid]);
        w.ids.insert("organizations", vec![org]);
        for i in 0..r.range(6, 20) {
            let b = json!({
                "event": EVENTS[i as usize % 3], "userId": format!("u{}", i % 4), "context": {}, "groups": {"company": "c1"},
                "properties": {"a text": r.ident(), "a number": r.range(-9, 9), "a flag": r.bool(), "a time": "2024-05-06T07:08:09Z"}
            });
            for (path, b) in [
                ("track", b),
                ("identify", json!({"group": "company", "id": "c1", "context": {}, "properties": {"a text": "x", "a number": 1.5, "a flag": true, "a time": "2024-05-06T07:08:09Z"}})),
            ] {
                let x = w.s.call("POST", &format!("/api/v1/ingest/{sdk}/{path}"), &[("content-type", "application/json")], &b.to_string()).unwrap();
                assert!(x.ok(), "harness: {x:?}");
            }
        }
        for kind in ["events", "custom-events", "dashboards", "reports", "bookmarks"] {
            for _ in 0..2 {
                let c = w.create(r, kind);
                let x = w.send(c.method, &c.path, &c.body).unwrap();
                assert!(x.status == c.good, "harness: {} {} {x:?}", c.path, c.body);
                w.keep(kind, &x);
            }
        }
        for kind in ["event-properties", "group-properties"] {
            let path = if kind == "event-properties" { kind.to_string() } else { format!("{kind}/1") };
            let x = w.send("GET", &format!("{}/schema/{path}", w.base), &Json::Null).unwrap();
            w.ids.insert(kind, x.json["data"].as_array().unwrap().iter().filter_map(|x| x["id"].as_u64()).collect());
        }
        w
    }
    fn keep(&mut self, kind: &'static str, x: &Resp) {
        if let Some(id) = x.json["id"].as_u64() {
            self.ids.entry(kind).or_default().push(id);
        }
    }
    fn send(&self, method: &str, path: &str, body: &Json) -> Result<Resp, String> {
        self.s.api(self.admin, self.org, method, path, body)
    }
    fn path(&self, kind: &str) -> String {
        match kind {
            "events" | "custom-events" | "event-properties" => format!("{}/schema/{kind}", self.base),
            "group-properties" => format!("{}/schema/{kind}/1", self.base),
            "accounts" | "organizations" | "projects" => format!("/api/v1/{kind}"),
            _ => format!("{}/{kind}", self.base),
        }
    }
    fn query(&self, r: &mut Rng, kind: &str) -> Json {
        let mut q = if kind == "funnel" { trans::funnel(r) } else { trans::segmentation(r) };
        self.concrete(r, &mut q);
        if r.chance(9, 10) {
            q.as_object_mut().unwrap().remove("segments");
        }
        q["group"] = json!(if r.chance(9, 10) { r.range(0, 1) } else { r.range(0, 9) });
        q
    }
    /// Names and values of what there is, mostly.
    fn concrete(&self, r: &mut Rng, v: &mut Json) {
        match v {
            Json::Array(l) => l.iter_mut().for_each(|x| self.concrete(r, x)),
            Json::Object(o) => {
                for (_, x) in o.iter_mut() {
                    self.concrete(r, x);
                }
                match o.get("eventType").and_then(|x| x.as_str()) {
                    Some("regular") if r.chance(29, 30) => {
                        o.insert("eventName".into(), json!(*r.pick(&EVENTS)));
                    }
                    Some("custom") if r.chance(19, 20) => {
                        o.insert("eventId".into(), json!(*r.pick(&self.ids["custom-events"])));
                    }
                    _ => {}
                }
                if o.get("propertyType").is_some() && r.chance(39, 40) {
                    let (name, t) = *r.pick(&PROPS);
                    o.remove("propertyId");
                    if r.chance(2, 3) {
                        o.remove("group");
                        o.insert("propertyType".into(), json!("event"));
                    } else {
                        o.insert("propertyType".into(), json!("group"));
                        o.insert("group".into(), json!(1));
                    }
                    o.insert("propertyName".into(), json!(name));
                    if o.contains_key("operation") && r.chance(19, 20) {
                        let (ops, val): (&[&str], fn(&mut Rng) -> Json) = match t {
                            b's' => (&["eq", "neq", "exists", "empty", "regex", "like", "notLike", "notRegex"], |r| json!(r.ident())),
                            b'n' => (&["eq", "neq", "gt", "gte", "lt", "lte", "exists", "empty"], |r| json!(r.range(-20, 20) as f64 / 2.0)),
                            b'b' => (&["eq", "neq", "true", "false", "exists", "empty"], |r| json!(r.bool())),
                            _ => (&["eq", "neq", "gt", "gte", "lt", "lte", "exists", "empty"], |r| json!(r.range(1_714_000_000_000, 1_716_000_000_000))),
                        };
                        o.insert("operation".into(), json!(*r.pick(ops)));
                        o.insert("value".into(), json!((0..r.range(1, 2)).map(|_| val(r)).collect::<Vec<_>>()));
                    }
                }
                let now = chrono::Utc::now();
                let mut at = [r.range(-40, 2), r.range(-40, 2)];
                if r.chance(9, 10) {
                    at.sort();
                }
                for (k, d) in [("from", at[0]), ("to", at[1])] {
                    if o.get(k).is_some_and(|x| x.is_string()) {
                        o.insert(k.into(), json!((now + chrono::Duration::days(d)).to_rfc3339_opts(chrono::SecondsFormat::Millis, true)));
                    }
                }
                if o.get("last").is_some() {
                    let most = match o.get("unit").and_then(|u| u.as_str()) {
                        Some("year") => 1,
                        Some("month") => 3,
                        Some("week") => 8,
                        _ => 30,
                    };
                    o.insert("last".into(), json!(r.range(0, most)));
                }
                if let Some(g) = o.get_mut("groups").filter(|_| r.chance(4, 5)).and_then(|g| g.as_array_mut()) {
                    if g.is_empty() {
                        g.push(json!({"filters": []}));
                    }
                    for g in g {
                        if g["filters"].as_array().is_some_and(|f| f.is_empty()) {
                            let mut f = json!({"type": "property", "operation": "eq", "propertyType": "event", "value": []});
                            self.concrete(r, &mut f);
                            g["filters"] = json!([f]);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn create(&mut self, r: &mut Rng, kind: &'static str) -> Call {
        self.n += 1;
        let n = self.n;
        let text = |r: &mut Rng| if r.bool() { Json::Null } else { json!(r.ident()) };
        let tags = if r.bool() { Json::Null } else { json!([r.ident(), "t"]) };
        let (body, required): (Json, &'static [&'static str]) = match kind {
            "events" => (
                json!({"name": format!("e{n}"), "displayName": format!("E{n}"), "description": text(r), "tags": tags, "status": "enabled", "isSystem": r.bool()}),
                &["name", "status", "isSystem"],
            ),
            "custom-events" => (
                json!({"name": format!("c{n}"), "description": text(r), "tags": tags, "status": "enabled", "isSystem": false,
                       "events": [{"eventType": "regular", "eventName": *r.pick(&EVENTS), "filters": Json::Null}]}),
                &["name", "status", "isSystem", "events"],
            ),
            "dashboards" => (
                json!({"name": format!("d{n}"), "description": text(r), "tags": tags, "panels": [{"type": "report", "reportId": 1, "x": 1, "y": 2, "w": 3, "h": 4}]}),
                &["name", "panels"],
            ),
            "reports" => {
                let t = *r.pick(&["funnel", "eventSegmentation"]);
                (json!({"name": format!("r{n}"), "description": text(r), "tags": tags, "type": t, "query": self.valid(r, t)}), &["name", "type", "query"])
            }
            "bookmarks" => {
                let t = *r.pick(&["funnel", "eventSegmentation"]);
                (json!({"query": self.valid(r, t)}), &[])
            }
            "accounts" => (
                json!({"email": format!("n{n}@example.com"), "password": PASSWORD, "name": text(r), "forceUpdatePassword": false, "forceUpdateEmail": false}),
                &["email", "password", "forceUpdatePassword", "forceUpdateEmail"],
            ),
            "organizations" => (json!({"name": format!("o{n}")}), &["name"]),
            "projects" => (
                json!({"name": format!("p{n}"), "description": text(r), "tags": tags, "sessionDurationSeconds": if r.bool() { Json::Null } else { json!(100) }}),
                &["name"],
            ),
            _ => unreachable!("{kind}"),
        };
        Call { method: "POST", path: self.path(kind), body, required, good: 201, name: kind }
    }
    fn valid(&self, r: &mut Rng, t: &str) -> Json {
        let e = *r.pick(&EVENTS);
        let mut q = if t == "funnel" { crate::perm::funnel(e) } else { crate::perm::segmentation(e) };
        q["type"] = json!(t);
        q
    }
    fn any(&mut self, r: &mut Rng) -> Call {
        let have: Vec<&'static str> = self.ids.keys().copied().collect();
        let kind = *r.pick(&have);
        let id = *r.pick(&self.ids[kind]);
        let b = self.base.clone();
        let call = |method, path, body, good, name| Call { method, path, body, required: &[], good, name };
        let event = |r: &mut Rng, w: &W| {
            let mut e = json!({"eventType": "regular", "eventName": ""});
            w.concrete(r, &mut e);
            e
        };
        match r.range(0, 17) {
            0 | 1 if !kind.ends_with("properties") => self.create(r, kind),
            2 => call("GET", self.path(kind), Json::Null, if kind == "bookmarks" { 405 } else { 200 }, "list"),
            3 => call("GET", format!("{}/{id}", self.path(kind)), Json::Null, 200, "read"),
            4 | 5 if kind != "bookmarks" => {
                self.n += 1;
                let mut c = match kind {
                    "event-properties" | "group-properties" => json!({"displayName": format!("D{}", self.n), "description": "x", "tags": ["a"], "status": "enabled"}),
                    "accounts" => json!({"name": "x"}),
                    k => self.create(r, k).body,
                };
                let o = c.as_object_mut().unwrap();
                if kind == "events" {
                    o.remove("name");
                }
                o.remove("isSystem");
                o.remove("type");
                if kind == "reports" {
                    o.remove("query");
                }
                for k in o.keys().cloned().collect::<Vec<_>>() {
                    if r.chance(1, 3) || o[&k].is_null() {
                        o.remove(&k);
                    }
                }
                call("PUT", format!("{}/{id}", self.path(kind)), c, 200, "update")
            }
            6 | 7 => call("POST", format!("{b}/queries/event-segmentation"), self.query(r, "eventSegmentation"), 200, "segmentation"),
            8 | 9 => call("POST", format!("{b}/queries/funnel"), self.query(r, "funnel"), 200, "funnel"),
            10 => {
                let mut q = json!({"time": trans::time(r)});
                trans::maybe(r, &mut q, "events", |r| trans::some(r, 2, |r| {
                    let mut e = trans::event(r);
                    trans::maybe(r, &mut e, "filters", |r| trans::some(r, 2, trans::filter));
                    e
                }));
                trans::maybe(r, &mut q, "filters", trans::grouped);
                trans::maybe(r, &mut q, "properties", |r| trans::some(r, 3, trans::property));
                self.concrete(r, &mut q);
                call("POST", format!("{b}/event-records/search"), q, 200, "event records")
            }
            11 => {
                let mut q = json!({"group": r.range(0, 1)});
                trans::maybe(r, &mut q, "time", trans::time);
                trans::maybe(r, &mut q, "filters", trans::grouped);
                trans::maybe(r, &mut q, "properties", |r| trans::some(r, 3, trans::property));
                self.concrete(r, &mut q);
                call("POST", format!("{b}/group-records/search"), q, 200, "group records")
            }
            12 => {
                let mut q = trans::property(r);
                if r.bool() {
                    q = trans::with(q, event(r, self));
                }
                self.concrete(r, &mut q);
                if r.bool() {
                    let mut f = trans::filter(r);
                    self.concrete(r, &mut f);
                    q["filter"] = json!({"operation": f["operation"], "value": f["value"]});
                }
                call("POST", format!("{b}/property-values"), q, 200, "property values")
            }
            13 => match r.range(0, 4) {
                0 => call("GET", format!("{b}/event-records/{}", r.range(1, 30)), Json::Null, 200, "event record"),
                1 => call("GET", format!("{b}/group-records/1/{}", r.pick(&["c1", "c2"])), Json::Null, 200, "group record"),
                2 => call("GET", format!("{b}/schema/events/name/{}", r.pick(&["bought", "nothing"])), Json::Null, 200, "event by name"),
                3 => call("GET", format!("{b}/schema/event-properties/name/{}", r.pick(&["a%20text", "nothing"])), Json::Null, 200, "property by name"),
                _ => call("GET", format!("{b}/schema/group-properties/1/name/{}", r.pick(&["a%20text", "nothing"])), Json::Null, 200, "property by name"),
            },
            14 => {
                let (e, p) = (*r.pick(&self.ids["events"]), *r.pick(&self.ids["event-properties"]));
                call(*r.pick(&["POST", "DELETE"]), format!("{b}/schema/events/{e}/properties/{p}"), Json::Null, 200, "attach")
            }
            15 => {
                self.n += 1;
                let n = if self.n % 10 == 0 { "company".to_string() } else { "users".into() };
                call("POST", format!("{b}/groups"), json!({"name": n, "displayName": n}), 201, "group")
            }
            16 => match r.range(0, 3) {
                0 => call("GET", "/api/v1/profile".into(), Json::Null, 200, "profile"),
                1 => call("GET", "/api/v1/admin/settings".into(), Json::Null, 200, "settings"),
                2 => call("GET", format!("{b}/groups"), Json::Null, 200, "groups"),
                _ => call("POST", "/api/v1/auth/login".into(), json!({"email": self.email, "password": PASSWORD}), 200, "login"),
            },
            _ if !kind.ends_with("properties") && kind != "accounts" && kind != "projects" && kind != "bookmarks" && kind != "organizations" && self.ids[kind].len() > 2 => {
                let id = self.ids.get_mut(kind).unwrap().pop().unwrap();
                call("DELETE", format!("{}/{id}", self.path(kind)), Json::Null, 200, "delete")
            }
            _ => call("POST", format!("{b}/queries/event-segmentation"), self.query(r, "eventSegmentation"), 200, "segmentation"),
        }
    }
}
/// A name of nothing, or nothing where there must be something, in one place of a query.
fn misname(at: impl FnOnce(usize) -> usize, v: &mut Json) -> Option<(&'static str, String)> {
    fn spots(v: &Json, at: &mut Vec<String>, l: &mut Vec<(Vec<String>, &'static str)>) {
        match v {
            Json::Array(x) => {
                for (i, x) in x.iter().enumerate() {
                    at.push(i.to_string());
                    spots(x, at, l);
                    at.pop();
                }
            }
            Json::Object(o) => {
                for (k, x) in o {
                    at.push(k.clone());
                    match k.as_str() {
                        "eventName" if x.is_string() && o.get("eventType") == Some(&json!("regular")) => l.push((at.clone(), "an event that is not there")),
                        "eventId" if x.is_number() && o.get("eventType") == Some(&json!("custom")) => l.push((at.clone(), "a custom event that is not there")),
                        "propertyName" if x.is_string() => l.push((at.clone(), "a property that is not there")),
                        "filters" if x.is_array() && o.contains_key("filtersCondition") => l.push((at.clone(), "no filters in a group of them")),
                        _ => {}
                    }
                    spots(x, at, l);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    let mut l = vec![];
    spots(v, &mut vec![], &mut l);
    if l.is_empty() {
        return None;
    }
    let (at, what) = l.get(at(l.len()))?.clone();
    let mut x = v;
    for k in &at {
        x = match x {
            Json::Array(l) => &mut l[k.parse::<usize>().unwrap()],
            _ => &mut x[k.as_str()],
        };
    }
    *x = match what {
        "an event that is not there" => json!("no such event"),
        "a custom event that is not there" => json!(987654),
        "a property that is not there" => json!("no such property"),
        _ => json!([]),
    };
    let place: Vec<&str> = at.iter().map(|k| if k.parse::<usize>().is_ok() { "*" } else { k.as_str() }).collect();
    Some((what, place.join(".")))
}
/// Something else in the place of some part.
fn mutate(r: &mut Rng, v: &mut Json) {
    let mut n = 0;
    fn count(v: &Json, n: &mut usize) {
        *n += 1;
        match v {
            Json::Array(l) => l.iter().for_each(|x| count(x, n)),
            Json::Object(o) => o.values().for_each(|x| count(x, n)),
            _ => {}
        }
    }
    count(v, &mut n);
    let mut at = r.below(n);
    fn find<'a>(v: &'a mut Json, at: &mut usize) -> Option<&'a mut Json> {
        if *at == 0 {
            return Some(v);
        }
        *at -= 1;
        match v {
            Json::Array(l) => {
                for x in l {
                    if let Some(x) = find(x, at) {
                        return Some(x);
                    }
                }
            }
            Json::Object(o) => {
                for (_, x) in o {
                    if let Some(x) = find(x, at) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
        None
    }
    let x = find(v, &mut at).unwrap();
    match (r.range(0, 3), &mut *x) {
        (0, Json::Object(o)) if !o.is_empty() => {
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            o.remove(&k);
            return;
        }
        (1, Json::Object(o)) => {
            o.insert((*r.pick(&["extra", "type", "id", "value", "filters", "name"])).into(), trans::value(r));
            return;
        }
        (0, Json::Array(l)) if !l.is_empty() => {
            let i = r.below(l.len());
            if r.bool() {
                l.remove(i);
            } else {
                let y = l[i].clone();
                l.push(y);
            }
            return;
        }
        _ => {}
    }
    *x = match r.range(0, 11) {
        0 => Json::Null,
        1 => json!([]),
        2 => json!({}),
        3 => json!(""),
        4 => json!(-1),
        5 => json!(*r.pick(&[u64::MAX, i64::MAX as u64, u32::MAX as u64])),
        6 => json!(*r.pick(&[0.5, 1e300, -1e300])),
        7 => json!(r.bool()),
        8 => json!(0),
        9 => json!("x"),
        10 => json!(*r.pick(&["9999999-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "2024-01-01", "262142-12-31T23:59:59Z"])),
        _ => trans::value(r),
    };
}
fn world(m: &mut Mon, r: &mut Rng, rounds: usize) {
    let mut w = W::new(r);
    for _ in 0..rounds {
        let mut c = w.any(r);
        let asked = |c: &Call, what: &str| json!({"method": c.method, "path": c.path, "body": c.body, "how": what});
        let fails = |m: &mut Mon, key: &str, c: &Call, what: String| {
            let key = format!("{key} ({})", c.name);
            m.violation(&key, format!("{} {} {}: {what}", c.method, c.path, c.body), asked(c, &what));
        };
        match r.range(0, 9) {
            // as it should be
            0..=3 => match w.send(c.method, &c.path, &c.body) {
                Err(e) => fails(m, "crash", &c, short(&e)),
                Ok(x) => {
                    m.observed(mon::hash_of(&format!("{}{}{}", c.name, x.status, short(&x.text))), true);
                    let right = match c.name {
                        // random ones may have no meaning
                        "segmentation" | "funnel" | "event records" | "group records" | "property values" => matches!(x.status, 200 | 400 | 404 | 501),
                        // the names of mutated ones fill what there is room for
                        "group" if x.status == 400 && x.text.contains("limit") => true,
                        "attach" | "group" | "event record" | "group record" | "event by name" | "property by name" => matches!(x.status, 200 | 201 | 404 | 409),
                        // no two have one name
                        "update" => matches!(x.status, 200 | 409),
                        _ => x.status == c.good || c.good == 200 && x.status == 204,
                    };
                    if !right {
                        fails(m, &format!("status {} of a valid request", x.status), &c, short(&x.text));
                    }
                    m.count(&format!("answered {}", x.status), 1);
                    if c.method == "POST" && x.status == 201 && c.name != "group" && c.name != "attach" {
                        w.keep(c.name, &x);
                    }
                    if x.status == 200 && matches!(c.name, "segmentation" | "funnel" | "event records" | "group records" | "property values") {
                        m.count("queries answered", 1);
                        for _ in 0..2 {
                            let mut body = c.body.clone();
                            let Some((what, place)) = misname(|n| r.below(n), &mut body) else { continue };
                            // a funnel takes it for a group that lets everything through
                            if c.name == "funnel" && what.starts_with("no filters") {
                                continue;
                            }
                            m.count(&format!("then with {what}"), 1);
                            let got = w.send(c.method, &c.path, &body);
                            let status = got.as_ref().map(|x| x.status).unwrap_or(0);
                            m.observed(mon::hash_of(&format!("{} {what} {place} {status}", c.name)), true);
                            if !matches!(status, 400 | 404) {
                                let key = format!("{what} at {place} accepted ({})", c.name);
                                let text = got.map(|x| short(&x.text)).unwrap_or_else(|e| short(&e));
                                m.violation(&key, format!("{} {body}: {status} {text}", c.path), json!({"path": c.path, "body": body}));
                            }
                        }
                    }
                    // the same again
                    if x.status == 201 && c.method == "POST" && matches!(c.name, "events" | "custom-events" | "accounts") {
                        m.count("repeated", 1);
                        match w.send(c.method, &c.path, &c.body) {
                            Err(e) => fails(m, "crash", &c, short(&e)),
                            Ok(x) if x.status == 409 => {}
                            Ok(x) => fails(m, &format!("status {} of a repeated request", x.status), &c, short(&x.text)),
                        }
                    }
                }
            },
            // with parts that are something else
            4..=7 if !c.body.is_null() => {
                for _ in 0..r.range(1, 2) {
                    mutate(r, &mut c.body);
                }
                m.count("mutated", 1);
                match w.send(c.method, &c.path, &c.body) {
                    Err(e) => fails(m, "crash", &c, short(&e)),
                    Ok(x) => {
                        m.observed(mon::hash_of(&format!("{}{}{}", c.name, x.status, short(&x.text))), true);
                        m.count(&format!("answered {}", x.status), 1);
                        if !matches!(x.status, 200..=299 | 400..=499 | 501) {
                            fails(m, &format!("status {} of a mutated request", x.status), &c, short(&x.text));
                        }
                        if c.method == "POST" && x.status == 201 && c.name != "group" && c.name != "attach" {
                            w.keep(c.name, &x);
                        }
                    }
                }
            }
            // without something it must have
            8 if !c.required.is_empty() => {
                let k = *r.pick(c.required);
                c.body.as_object_mut().unwrap().remove(k);
                m.count("fields left out", 1);
                match w.send(c.method, &c.path, &c.body) {
                    Err(e) => fails(m, "crash", &c, short(&e)),
                    Ok(x) => {
                        if x.status != 400 || x.json["error"]["fields"][k] != json!("missing") {
                            fails(m, "field left out", &c, format!("without {k}: {} {}", x.status, short(&x.text)));
                        }
                    }
                }
            }
            // wrong in other ways
            _ => {
                let token = format!("Bearer {}", w.s.token(w.admin, w.org));
                let auth = ("authorization", token.as_str());
                let ct = ("content-type", "application/json");
                let body = if c.body.is_null() { String::new() } else { c.body.to_string() };
                let way = *r.pick(&[0, 1, 2, 3, 4, 4, 5]);
                let (what, x, want): (&str, Result<Resp, String>, &[u16]) = match way {
                    0 if !body.is_empty() => {
                        let cut: String = body.chars().take(r.below(body.chars().count())).collect();
                        ("a broken body", w.s.call(c.method, &c.path, &[auth, ct], &cut), &[400])
                    }
                    1 if !body.is_empty() => ("no content type", w.s.call(c.method, &c.path, &[auth], &body), &[400, 415]),
                    2 if c.name != "login" => ("no credentials", w.s.call(c.method, &c.path, &[ct], &body), &[401]),
                    3 if c.name != "login" => ("bad credentials", w.s.call(c.method, &c.path, &[("authorization", "Bearer x.y.z"), ct], &body), &[401]),
                    4 => {
                        let who = if r.bool() { w.email.clone() } else { format!("nobody{}@example.com", r.range(0, 99)) };
                        let x = w.send("POST", "/api/v1/auth/login", &json!({"email": who, "password": "something else 9"}));
                        c = Call { method: "POST", path: "/api/v1/auth/login".into(), body: Json::Null, required: &[], good: 0, name: "login" };
                        ("a wrong password", x, &[401])
                    }
                    _ => {
                        // what is not there, and what no number is
                        let have: Vec<&'static str> = w.ids.keys().copied().collect();
                        let kind = *r.pick(&have);
                        let (id, want): (&str, &[u16]) = match r.range(0, 4) {
                            0 => ("x", &[400, 404]),
                            1 => ("-1", &[400, 404]),
                            2 => ("99999999999999999999999", &[400, 404]),
                            _ => ("987654321", &[404]),
                        };
                        let method = *r.pick(if kind == "bookmarks" { &["GET"][..] } else { &["GET", "PUT", "DELETE"] });
                        c = Call { method, path: format!("{}/{id}", w.path(kind)), body: Json::Null, required: &[], good: 0, name: kind };
                        if method == "PUT" {
                            c.body = json!({"description": "x"});
                            if matches!(kind, "accounts" | "organizations") {
                                c.body = json!({"name": "xx"});
                            }
                        }
                        ("an id of nothing", w.send(c.method, &c.path, &c.body), want)
                    }
                };
                m.count("wrong requests", 1);
                match x {
                    Err(e) => fails(m, "crash", &c, short(&e)),
                    Ok(x) => {
                        // broken off after all that counts
                        let whole = way == 0 && x.ok();
                        if !want.contains(&x.status) && !whole {
                            fails(m, &format!("status {} of {what}", x.status), &c, short(&x.text));
                        }
                    }
                }
            }
        }
    }
    m.sample(|| json!({"project": w.pid, "things": w.ids.values().map(|x| x.len()).sum::<usize>()}));
    w.s.discard();
}
/// Queries with names in every place that has some, and then one of them wrong.
fn misnamed(m: &mut Mon, r: &mut Rng) {
    let w = W::new(r);
    let of = |group: Option<i64>, name: &str| match group {
        None => json!({"propertyType": "event", "propertyName": name}),
        Some(g) => json!({"propertyType": "group", "group": g, "propertyName": name}),
    };
    let filter = |r: &mut Rng, group: Option<i64>| {
        let (name, v) = *r.pick(&[("a text", 0), ("a number", 1), ("a flag", 2)]);
        let mut f = of(group, name);
        f["type"] = json!("property");
        f["operation"] = json!("eq");
        f["value"] = [json!(["x"]), json!([1]), json!([true])][v].clone();
        f
    };
    let groups = |r: &mut Rng, only: Option<i64>| {
        let mut l = vec![];
        for _ in 0..r.range(2, 3) {
            let n = r.range(1, 2);
            let f: Vec<Json> = (0..n)
                .map(|_| {
                    let g = if only.is_some() || r.chance(1, 3) { Some(1) } else { None };
                    filter(r, g)
                })
                .collect();
            l.push(json!({"filtersCondition": "and", "filters": f}));
        }
        json!({"groupsCondition": "and", "groups": l})
    };
    for kind in ["segmentation", "funnel", "event records", "group records"] {
        let mut q = match kind {
            "segmentation" => crate::perm::segmentation("viewed"),
            "funnel" => crate::perm::funnel("viewed"),
            "event records" => json!({"time": {"type": "last", "last": 3, "unit": "day"}, "events": [{"eventType": "regular", "eventName": "viewed"}, {"eventType": "regular", "eventName": "bought"}]}),
            _ => json!({"group": 1}),
        };
        let only = if kind == "group records" { Some(1) } else { None };
        q["filters"] = groups(r, only);
        let custom = json!({"eventType": "custom", "eventId": w.ids["custom-events"][0]});
        let path = match kind {
            "segmentation" => {
                let more = q["events"][0].clone();
                let list = q["events"].as_array_mut().unwrap();
                list.push(more);
                list.push(custom);
                list[2]["queries"] = json!([{"type": "countEvents"}, {"type": "aggregateProperty", "propertyType": "event", "propertyName": "a number", "aggregate": "sum"}]);
                for e in list {
                    e["filters"] = json!([filter(r, None), filter(r, None)]);
                    e["breakdowns"] = json!([{"type": "property", "propertyType": "event", "propertyName": "a text"}]);
                }
                q["breakdowns"] = json!([{"type": "property", "propertyType": "event", "propertyName": "a flag"}, {"type": "property", "propertyType": "event", "propertyName": "a text"}]);
                "queries/event-segmentation"
            }
            "funnel" => {
                q["steps"].as_array_mut().unwrap().push(json!({"events": [{"eventType": "regular", "eventName": "bought"}, custom], "order": {"type": "exact"}}));
                for s in q["steps"].as_array_mut().unwrap() {
                    for e in s["events"].as_array_mut().unwrap() {
                        e["filters"] = json!([filter(r, None), filter(r, None)]);
                    }
                }
                q["holdingConstants"] = json!([of(None, "a flag"), of(None, "a number")]);
                q["exclude"] = json!([{"eventType": "regular", "eventName": "bought", "filters": [filter(r, None)]}]);
                q["breakdowns"] = json!([{"type": "property", "propertyType": "event", "propertyName": "a text"}]);
                "queries/funnel"
            }
            "event records" => {
                q["events"].as_array_mut().unwrap().push(custom);
                for e in q["events"].as_array_mut().unwrap() {
                    e["filters"] = json!([filter(r, None), filter(r, None)]);
                }
                q["properties"] = json!([of(None, "a text"), of(Some(1), "a number")]);
                "event-records/search"
            }
            _ => {
                q["properties"] = json!([of(Some(1), "a text"), of(Some(1), "a number")]);
                q["sort"] = of(Some(1), "a text");
                q["sort"]["direction"] = json!("asc");
                "group-records/search"
            }
        };
        let path = format!("{}/{path}", w.base);
        let got = w.send("POST", &path, &q);
        if !got.as_ref().is_ok_and(|x| x.status == 200) {
            m.violation(&format!("names everywhere refused ({kind})"), format!("{q}: {got:?}"), json!({"body": q}));
            continue;
        }
        let mut i = 0;
        loop {
            let mut body = q.clone();
            let Some((what, place)) = misname(|_| i, &mut body) else { break };
            i += 1;
            if kind == "funnel" && what.starts_with("no filters") {
                continue;
            }
            m.count("one of the names wrong", 1);
            let got = w.send("POST", &path, &body);
            let status = got.as_ref().map(|x| x.status).unwrap_or(0);
            m.observed(mon::hash_of(&format!("{kind} {what} {place} {i} {status}")), true);
            if !matches!(status, 400 | 404) {
                let text = got.map(|x| short(&x.text)).unwrap_or_else(|e| short(&e));
                m.violation(&format!("{what} at {place} accepted ({kind})"), format!("{path} {body}: {status} {text}"), json!({"path": path, "body": body}));
            }
        }
    }
    w.s.discard();
}
/// Every aggregate of properties of every type.
fn aggregates(m: &mut Mon, r: &mut Rng) {
    const AGGS: [&str; 5] = ["count", "sum", "min", "max", "avg"];
    let w = W::new(r);
    let mut props: Vec<(String, String)> = vec![];
    let x = w.send("GET", &format!("{}/schema/event-properties", w.base), &Json::Null).unwrap();
    for p in x.json["data"].as_array().unwrap() {
        let (name, t) = (p["name"].as_str().unwrap().to_string(), p["dataType"].as_str().unwrap_or("?").to_string());
        if !props.iter().any(|x| x.1 == t) || PROPS.iter().any(|x| x.0 == name) {
            props.push((name, t));
        }
    }
    for (name, t) in props {
        let mut queries = vec![];
        for a in AGGS {
            queries.push(json!({"type": "aggregateProperty", "propertyType": "event", "propertyName": name, "aggregate": a}));
            for b in AGGS {
                queries.push(json!({"type": "aggregatePropertyPerGroup", "propertyType": "event", "propertyName": name, "aggregatePerGroup": a, "aggregate": b}));
            }
        }
        for q in queries {
            let mut b = crate::perm::segmentation("bought");
            b["events"][0]["queries"] = json!([q]);
            m.count("aggregates asked for", 1);
            let kind = format!("{} {} of {t}", q["aggregatePerGroup"].as_str().unwrap_or(""), q["aggregate"].as_str().unwrap());
            let got = w.send("POST", &format!("{}/queries/event-segmentation", w.base), &b);
            let status = got.as_ref().map(|x| x.status).unwrap_or(0);
            m.observed(mon::hash_of(&format!("{kind} {status}")), status == 200);
            if std::env::var("SHOW").is_ok() {
                eprintln!("SHOW {name} {kind}: {status}");
            }
            match got {
                Err(e) => m.violation("crash (aggregate)", format!("{kind} ({name}): {}", short(&e)), json!({"body": b})),
                Ok(x) if matches!(x.status, 200 | 400 | 501) => {}
                Ok(x) => m.violation("status of an aggregate", format!("{kind} ({name}): {} {}", x.status, short(&x.text)), json!({"body": b})),
            }
        }
    }
    w.s.discard();
}
pub fn run(m: &mut Mon, r: &mut Rng, n: usize, secs: (u64, u64)) {
    each(m, r);
    aggregates(m, r);
    for _ in 0..if m.thorough() { 20 } else { 2 } {
        misnamed(m, r);
    }
    let t = Instant::now();
    let limit = Duration::from_secs(if m.thorough() { secs.1 } else { secs.0 });
    for _ in 0..if m.thorough() { n * 20 } else { n } {
        if t.elapsed() > limit {
            break;
        }
        let mut r = r.fork();
        world(m, &mut r, 100);
        m.count("worlds", 1);
    }
}
