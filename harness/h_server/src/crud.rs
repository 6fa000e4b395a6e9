//! What is written through the interface is what is read back through it: a model of the contents of
//! projects, and of accounts, organisations and projects themselves, kept along histories of requests of
//! several accounts, with restarts in between.
use std::collections::BTreeMap;
use std::time::Duration;
use std::time::Instant;

use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value as Json;

use crate::perm::short;
use crate::server::Resp;
use crate::server::Server;
use crate::trans;

const KINDS: [&str; 11] = [
    "events", "custom-events", "dashboards", "reports", "bookmarks", "event-properties", "group-properties/0", "group-properties/1",
    "accounts", "organizations", "projects",
];
/// What is read with its history.
#[derive(Clone, Debug)]
struct Entry {
    has: BTreeMap<String, Json>,
    created: Option<String>,
    /// when it was last changed, as shown
    updated: Json,
    gone: bool,
}
struct Project {
    id: u64,
    sdk: String,
    groups: Vec<(u64, String)>,
}
struct W {
    s: Server,
    org: u64,
    accounts: Vec<u64>,
    projects: Vec<Project>,
    /// by kind, project (0 when not of one) and id
    all: BTreeMap<(&'static str, u64, String), Entry>,
    /// names that are free again
    free: BTreeMap<(&'static str, u64), Vec<String>>,
    n: usize,
    log: Vec<String>,
    /// the settings, those never shown too
    settings: BTreeMap<&'static str, Json>,
}
const SETTINGS: [&str; 15] = [
    "backupEnabled",
    "backupEncryptionEnabled",
    "backupCompressionEnabled",
    "backupEncryptionPassword",
    "backupProvider",
    "backupProviderS3Bucket",
    "backupProviderS3Path",
    "backupProviderS3Region",
    "backupProviderS3AccessKey",
    "backupProviderS3SecretKey",
    "backupProviderGcpBucket",
    "backupProviderGcpPath",
    "backupProviderGcpKey",
    "backupScheduleInterval",
    "backupScheduleStartHour",
];
const HIDDEN: [&str; 3] = ["backupEncryptionPassword", "backupProviderS3SecretKey", "backupProviderGcpKey"];
fn none_is_absent(v: &Json) -> Json {
    match v {
        Json::Object(o) => o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), none_is_absent(v))).collect(),
        Json::Array(a) => a.iter().map(none_is_absent).collect(),
        v => v.clone(),
    }
}
fn same(field: &str, want: &Json, got: &Json) -> bool {
    if field == "query" {
        return trans::norm(want) == trans::norm(got);
    }
    if matches!(field, "organizations" | "projects" | "teams" | "tags") {
        let l = |v: &Json| v.as_array().cloned().unwrap_or_default();
        return l(want) == l(got);
    }
    // lists of what is attached, in any order, none as good as empty
    if field == "eventProperties" {
        let set = |v: &Json| {
            let mut l: Vec<u64> = v.as_array().map(|l| l.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
            l.sort();
            l
        };
        return set(want) == set(got);
    }
    none_is_absent(want) == none_is_absent(got)
}
/// Accounts are shown with names of fields in another style.
fn camel(v: &Json) -> Json {
    let Json::Object(o) = v else { return v.clone() };
    let name = |k: &String| {
        let mut out = String::new();
        for (i, p) in k.split('_').enumerate() {
            if i == 0 { out += p } else { out += &(p[..1].to_uppercase() + &p[1..]) }
        }
        out
    };
    o.iter().map(|(k, v)| (if k.contains('_') { name(k) } else { k.clone() }, v.clone())).collect()
}
fn id_of(v: &Json) -> Option<String> {
    v["id"].as_u64().map(|x| x.to_string()).or(v["id"].as_str().map(|x| x.to_string()))
}
fn moment(v: &Json) -> Option<i64> {
    chrono::DateTime::parse_from_rfc3339(v.as_str()?).ok().map(|t| t.timestamp_millis())
}
impl W {
    fn new(r: &mut Rng) -> W {
        let s = Server::new();
        let admin = s.admin();
        let org = s.org("org");
        let mut w = W {
            s,
            org,
            accounts: vec![admin],
            projects: vec![],
            all: Default::default(),
            free: Default::default(),
            n: 0,
            log: vec![],
            settings: Default::default(),
        };
        let shown = w.api(admin, "GET", "/api/v1/admin/settings", &Json::Null).unwrap();
        for k in SETTINGS {
            w.settings.insert(k, if HIDDEN.contains(&k) { json!("") } else { shown.json[k].clone() });
        }
        for i in 0..2 {
            let (id, sdk) = w.s.project(org, &format!("p{i}"), 7200);
            w.projects.push(Project { id, sdk: sdk.clone(), groups: vec![] });
            for k in 0..r.range(2, 5) {
                let props = json!({format!("text {k}"): "x", format!("number {k}"): 1, "shared": true});
                for (path, b) in [
                    ("track", json!({"event": format!("tracked {k}"), "userId": "u", "context": {}, "properties": props})),
                    ("identify", json!({"group": "company", "id": "c1", "context": {}, "properties": props})),
                    ("identify", json!({"group": "user", "id": "u", "context": {}, "properties": props})),
                ] {
                    let x = w.s.call("POST", &format!("/api/v1/ingest/{sdk}/{path}"), &[("content-type", "application/json")], &b.to_string());
                    assert!(x.as_ref().is_ok_and(|x| x.ok()), "harness: {x:?}");
                }
            }
        }
        // others who may do the same
        for i in 0..2 {
            let b = json!({"email": format!("other{i}@example.com"), "password": "correct horse 12", "name": null, "forceUpdatePassword": false,
                "forceUpdateEmail": false, "role": "Admin", "organizations": [[org, "Owner"]], "projects": [], "teams": null});
            let x = w.api(admin, "POST", "/api/v1/accounts", &b).unwrap();
            assert!(x.ok(), "harness: {x:?}");
            w.accounts.push(x.json["id"].as_u64().unwrap());
        }
        // what there is so far
        let scopes = w.scopes();
        for (kind, pid) in scopes {
            if kind == "bookmarks" {
                continue;
            }
            let x = w.api(admin, "GET", &w.path(kind, pid), &Json::Null).unwrap();
            for v in x.json["data"].as_array().unwrap_or_else(|| panic!("harness: {kind}: {x:?}")) {
                let v = &camel(v);
                let mut has: BTreeMap<String, Json> = v.as_object().unwrap().clone().into_iter().collect();
                has.remove("eventsCount");
                let created = has.remove("createdAt").and_then(|x| x.as_str().map(|x| x.to_string()));
                let updated = has.remove("updatedAt").unwrap_or(Json::Null);
                w.all.insert((kind, pid, id_of(v).unwrap()), Entry { has, created, updated, gone: false });
            }
        }
        w
    }
    fn scopes(&self) -> Vec<(&'static str, u64)> {
        let mut l = vec![];
        for kind in KINDS {
            if matches!(kind, "accounts" | "organizations" | "projects") {
                l.push((kind, 0));
            } else {
                l.extend(self.projects.iter().map(|p| (kind, p.id)));
            }
        }
        l
    }
    fn path(&self, kind: &str, pid: u64) -> String {
        match kind {
            "accounts" | "organizations" | "projects" => format!("/api/v1/{kind}"),
            "dashboards" | "reports" | "bookmarks" => format!("/api/v1/projects/{pid}/{kind}"),
            _ => format!("/api/v1/projects/{pid}/schema/{kind}"),
        }
    }
    fn api(&self, by: u64, method: &str, path: &str, body: &Json) -> Result<Resp, String> {
        self.s.api(by, self.org, method, path, body)
    }
    fn name(&mut self, r: &mut Rng, kind: &'static str, pid: u64) -> String {
        let free = self.free.entry((kind, pid)).or_default();
        if !free.is_empty() && r.chance(2, 5) {
            let i = r.below(free.len());
            return free.swap_remove(i);
        }
        self.n += 1;
        match kind {
            "accounts" => format!("n{}@example.com", self.n),
            _ => match r.range(0, 4) {
                0 => format!("{} {}", r.string(), self.n),
                1 => format!("Имя {}", self.n),
                2 => format!("data/{}", self.n),
                _ => format!("n{}", self.n),
            },
        }
    }
    fn optional(&mut self, r: &mut Rng) -> Json {
        match r.range(0, 4) {
            0 => Json::Null,
            1 => json!(""),
            2 => json!(r.string()),
            _ => json!(r.ident()),
        }
    }
    fn tags(r: &mut Rng) -> Json {
        if r.chance(1, 3) {
            return Json::Null;
        }
        json!((0..r.range(0, 4)).map(|_| r.ident()).collect::<Vec<_>>())
    }
    fn panels(r: &mut Rng) -> Json {
        json!((0..r.range(0, 4))
            .map(|_| json!({"type": "report", "reportId": r.range(1, 1 << 40), "x": r.range(0, 99), "y": r.range(0, 99), "w": r.range(0, 99), "h": r.range(0, 99)}))
            .collect::<Vec<_>>())
    }
    fn query(r: &mut Rng) -> Json {
        let name = r.ident();
        if r.bool() {
            let mut q = crate::perm::funnel(&name);
            q["type"] = json!("funnel");
            q["timeWindow"]["n"] = json!(r.range(1, 99));
            q
        } else {
            let mut q = crate::perm::segmentation(&name);
            q["type"] = json!("eventSegmentation");
            q["time"]["last"] = json!(r.range(1, 99));
            q
        }
    }
    /// What custom events are made of: events of the project, plainly or filtered, and custom events without more in them.
    fn made_of(&self, r: &mut Rng, pid: u64) -> Json {
        let mut l: Vec<Json> = vec![];
        let events: Vec<&Json> =
            self.all.iter().filter(|(k, e)| k.0 == "events" && k.1 == pid && !e.gone).map(|(_, e)| &e.has["name"]).collect();
        for _ in 0..r.range(1, 3) {
            if events.is_empty() {
                break;
            }
            let mut e = json!({"eventType": "regular", "eventName": *r.pick(&events)});
            if r.bool() {
                e["filters"] = json!([crate::perm::filter("shared", "eq", json!([r.bool()]))]);
            }
            l.push(e);
        }
        json!(l)
    }
    fn roles(&self, r: &mut Rng, of: &[u64], names: &[&str]) -> Json {
        if r.chance(1, 3) {
            return Json::Null;
        }
        json!(of.iter().filter_map(|id| r.bool().then(|| json!([id, *r.pick(names)]))).collect::<Vec<_>>())
    }
    fn field(&mut self, r: &mut Rng, kind: &'static str, pid: u64, field: &str) -> Json {
        let pids: Vec<u64> = self.projects.iter().map(|p| p.id).collect();
        match field {
            "name" if kind == "accounts" => self.optional(r),
            "name" | "email" => json!(self.name(r, kind, pid)),
            "displayName" => {
                self.n += 1;
                if r.chance(1, 3) { Json::Null } else { json!(format!("D{}", self.n)) }
            }
            "description" => self.optional(r),
            "tags" => Self::tags(r),
            "status" => json!(*r.pick(&["enabled", "disabled"])),
            "isSystem" | "forceUpdatePassword" | "forceUpdateEmail" => json!(r.bool()),
            "panels" => Self::panels(r),
            "query" => Self::query(r),
            "events" => self.made_of(r, pid),
            "sessionDurationSeconds" => json!(r.range(1, 1 << 40)),
            "organizations" => self.roles(r, &[self.org], &["Owner", "Admin", "Member"]),
            "projects" => self.roles(r, &pids, &["Owner", "Admin"]),
            "role" => if r.chance(1, 3) { json!("Admin") } else { Json::Null },
            _ => unreachable!("{kind} {field}"),
        }
    }
    fn create_fields(kind: &str) -> &'static [&'static str] {
        match kind {
            "events" => &["name", "displayName", "description", "tags", "status", "isSystem"],
            "custom-events" => &["name", "description", "tags", "status", "isSystem", "events"],
            "dashboards" => &["name", "description", "tags", "panels"],
            "reports" => &["name", "description", "tags", "query"],
            "bookmarks" => &["query"],
            "accounts" => &["email", "name", "forceUpdatePassword", "forceUpdateEmail", "role", "organizations", "projects"],
            "organizations" => &["name"],
            "projects" => &["name", "description", "tags", "sessionDurationSeconds"],
            _ => &[],
        }
    }
    fn update_fields(kind: &str) -> &'static [&'static str] {
        match kind {
            "events" => &["displayName", "description", "tags", "status"],
            "custom-events" => &["name", "description", "tags", "status", "events"],
            "dashboards" => &["name", "description", "tags", "panels"],
            "reports" => &["name", "description", "tags", "query"],
            "accounts" => &["email", "name", "forceUpdatePassword", "role", "organizations", "projects"],
            "organizations" => &["name"],
            "projects" => &["name", "description", "tags", "sessionDurationSeconds"],
            "bookmarks" => &[],
            _ => &["displayName", "description", "tags", "status"],
        }
    }
    fn check(&mut self, m: &mut Mon, key: &(&'static str, u64, String), got: &Json, how: &str) {
        let Some(e) = self.all.get(key) else { return };
        let got = &camel(got);
        m.observed(mon::hash_of(&format!("{} {how} {:?}", key.0, e.has)), true);
        let mut wrong = vec![];
        for (k, v) in &e.has {
            m.count("fields compared", 1);
            if !same(k, v, &got[k]) {
                wrong.push((k.clone(), format!("{k} of {} {} by {how} is {}, not {}", key.0, key.2, short(&got[k].to_string()), short(&v.to_string()))));
            }
        }
        // kept to the second
        let sec = |v: Option<i64>| v.map(|v| v.div_euclid(1000));
        if sec(e.created.as_ref().and_then(|c| moment(&json!(c)))) != sec(moment(&got["createdAt"])) {
            wrong.push(("createdAt".into(), format!("createdAt of {key:?} by {how} is {}, not {:?}", got["createdAt"], e.created)));
        }
        if sec(moment(&e.updated)) != sec(moment(&got["updatedAt"])) || e.updated.is_null() != got["updatedAt"].is_null() {
            wrong.push(("updatedAt".into(), format!("updatedAt of {key:?} by {how} is {}, not {}", got["updatedAt"], e.updated)));
        }
        for (k, x) in wrong {
            self.vio(m, &format!("{k} of {} ({how})", key.0), x);
        }
    }
    fn vio(&self, m: &mut Mon, key: &str, what: String) {
        let from = self.log.len().saturating_sub(60);
        m.violation(key, what, json!({"history": self.log[from..]}));
    }
    /// An entry there still is, if there is one.
    fn pick(&self, r: &mut Rng, kind: &'static str, pid: u64, gone: bool) -> Option<(&'static str, u64, String)> {
        let l: Vec<_> = self.all.iter().filter(|(k, e)| k.0 == kind && k.1 == pid && e.gone == gone).map(|(k, _)| k.clone()).collect();
        if l.is_empty() { None } else { Some(r.pick(&l).clone()) }
    }
    fn kept(&self, key: &(&'static str, u64, String)) -> bool {
        match key.0 {
            "accounts" => self.accounts.iter().any(|a| a.to_string() == key.2),
            "organizations" => self.org.to_string() == key.2 || key.2 == "1",
            "projects" => self.projects.iter().any(|p| p.id.to_string() == key.2),
            _ => false,
        }
    }
    fn free_names(&mut self, key: &(&'static str, u64, String)) {
        let f = if key.0 == "accounts" { "email" } else { "name" };
        if let Some(n) = self.all[key].has.get(f).and_then(|n| n.as_str()) {
            self.free.entry((key.0, key.1)).or_default().push(n.to_string());
        }
    }
    /// Changes of the settings, some of which do not go together.
    fn settings(&mut self, m: &mut Mon, r: &mut Rng) {
        let by = self.accounts[0];
        let path = "/api/v1/admin/settings";
        let mut next = self.settings.clone();
        let mut b = json!({});
        if r.chance(2, 3) {
            for k in SETTINGS {
                if r.chance(1, 3) {
                    let v = match k {
                        "backupProvider" => json!(*r.pick(&["local", "s3", "gcp"])),
                        "backupScheduleInterval" => json!(*r.pick(&["hourly", "daily", "weekly", "monthly", "yearly"])),
                        "backupScheduleStartHour" => json!(if r.chance(1, 10) { r.range(24, 99) } else { r.range(0, 23) }),
                        k if k.ends_with("Enabled") => json!(r.bool()),
                        _ if r.chance(1, 4) => json!(""),
                        _ => json!(format!("{} {}", r.ident(), r.ident())),
                    };
                    b[k] = v.clone();
                    next.insert(k, v);
                }
            }
            let none = |k: &str| next[k] == json!("");
            let refused = next["backupEncryptionEnabled"] == json!(true) && none("backupEncryptionPassword")
                || next["backupScheduleStartHour"].as_u64() > Some(23)
                || match next["backupProvider"].as_str() {
                    Some("s3") => {
                        ["backupProviderS3Bucket", "backupProviderS3Region", "backupProviderS3AccessKey", "backupProviderS3SecretKey"].into_iter().any(none)
                    }
                    Some("gcp") => none("backupProviderGcpBucket") || none("backupProviderGcpKey"),
                    _ => false,
                };
            self.log.push(format!("{by}: settings {b}"));
            let got = self.api(by, "PUT", path, &b);
            match (&got, refused) {
                (Ok(x), false) if x.status == 200 => self.settings = next,
                (Ok(x), true) if x.status == 400 => m.count("settings refused", 1),
                _ => return self.vio(m, "settings changed", format!("PUT {path} {b} (to be refused: {refused}): {}", answer(&got))),
            }
            m.count("settings changed", 1);
        }
        match self.api(by, "GET", path, &Json::Null) {
            Ok(x) if x.status == 200 => {
                for (k, v) in &self.settings {
                    if !HIDDEN.contains(k) && x.json[*k] != *v {
                        self.vio(m, &format!("setting {k}"), format!("{k} is {}, not {v}", x.json[*k]));
                    }
                }
                for k in HIDDEN {
                    let v = self.settings[k].as_str().unwrap();
                    if !x.json[k].is_null() || v.len() > 11 && x.text.contains(v) {
                        self.vio(m, &format!("setting {k} shown"), short(&x.text));
                    }
                }
            }
            x => self.vio(m, "settings", answer(&x)),
        }
        m.count("settings read", 1);
    }
    /// Records are shown with the name that the project has now.
    fn named_records(&self, m: &mut Mon, r: &mut Rng, pid: u64) {
        let Some(e) = self.all.get(&("projects", 0, pid.to_string())).filter(|e| !e.gone) else { return };
        let name = &e.has["name"];
        let (what, b) = match r.range(0, 2) {
            0 => ("event-records", json!({"time": {"type": "last", "last": 2, "unit": "day"}})),
            1 => ("group-records", json!({"group": 0})),
            _ => ("group-records", json!({"group": 1})),
        };
        let path = format!("/api/v1/projects/{pid}/{what}/search");
        match self.api(self.accounts[0], "POST", &path, &b) {
            Ok(x) if x.status == 200 => {
                for c in x.json["columns"].as_array().unwrap_or(&vec![]) {
                    if c["name"] == json!("Project") {
                        m.count("records with the name of their project", 1);
                        if c["data"].as_array().is_some_and(|l| l.iter().any(|v| v != name)) {
                            self.vio(m, &format!("project of {what}"), format!("{b}: {} of project {name}", c["data"]));
                        }
                    }
                }
            }
            x => self.vio(m, &format!("search of {what}"), format!("{path} {b}: {}", answer(&x))),
        }
    }
    fn step(&mut self, m: &mut Mon, r: &mut Rng) {
        if r.chance(1, 12) {
            self.settings(m, r);
        }
        if r.chance(1, 25) {
            let pid = r.pick(&self.projects).id;
            self.named_records(m, r, pid);
        }
        let by = *r.pick(&self.accounts);
        let scopes = self.scopes();
        let (kind, pid) = *r.pick(&scopes);
        let path = self.path(kind, pid);
        let t0 = chrono::Utc::now().timestamp_millis();
        let within = |v: &Json| moment(v).is_some_and(|t| t >= t0 && t <= chrono::Utc::now().timestamp_millis());
        match r.range(0, 15) {
            0..=3 => {
                let fields = Self::create_fields(kind);
                if fields.is_empty() {
                    return;
                }
                let mut has: BTreeMap<String, Json> = Default::default();
                let mut b = json!({});
                for f in fields {
                    let v = self.field(r, kind, pid, f);
                    let optional = matches!(*f, "description" | "tags" | "displayName" | "role" | "organizations" | "projects");
                    if !(v.is_null() && optional && r.bool()) {
                        b[*f] = v.clone();
                    }
                    has.insert(f.to_string(), v);
                }
                match kind {
                    "reports" => {
                        b["type"] = b["query"]["type"].clone();
                        has.insert("type".into(), b["type"].clone());
                    }
                    "accounts" => b["password"] = json!("correct horse 12"),
                    "projects" if r.chance(1, 4) => {
                        b.as_object_mut().unwrap().remove("sessionDurationSeconds");
                        has.insert("sessionDurationSeconds".into(), json!(7777));
                    }
                    _ => {}
                }
                self.log.push(format!("{by}: create {kind} of {pid} {b}"));
                let x = match self.api(by, "POST", &path, &b) {
                    Ok(x) if x.status == 201 => x,
                    x => return self.vio(m, &format!("create {kind}"), format!("POST {path} {b}: {}", answer(&x))),
                };
                let Some(id) = id_of(&x.json) else { return self.vio(m, "no id", format!("{kind} {}", x.text)) };
                let key = (kind, pid, id.clone());
                if self.all.get(&key).is_some() {
                    self.vio(m, &format!("id of {kind} used twice"), format!("{key:?}"));
                }
                has.insert("id".into(), x.json["id"].clone());
                has.insert("createdBy".into(), json!(by));
                if pid != 0 {
                    has.insert("projectId".into(), json!(pid));
                }
                if kind == "events" {
                    has.insert("eventProperties".into(), Json::Null);
                }
                if kind != "bookmarks" {
                    has.insert("updatedBy".into(), Json::Null);
                }
                if kind == "projects" {
                    let token = x.json["sdkToken"].clone();
                    let used = self.all.iter().any(|(k, e)| k.0 == "projects" && e.has.get("sdkToken") == Some(&token));
                    if used || token.as_str().map(|t| t.len() < 32).unwrap_or(true) {
                        self.vio(m, "token of a project", format!("{token}"));
                    }
                    has.insert("sdkToken".into(), token);
                }
                let shown = camel(&x.json);
                if !within(&shown["createdAt"]) {
                    self.vio(m, &format!("time of creation of {kind}"), format!("{} not since {t0}", shown["createdAt"]));
                }
                let created = shown["createdAt"].as_str().map(|s| s.to_string());
                self.all.insert(key.clone(), Entry { has, created, updated: Json::Null, gone: false });
                if kind == "organizations" {
                    // of whom made it
                    let of = self.all.get_mut(&("accounts", 0, by.to_string())).unwrap().has.entry("organizations".into()).or_insert(json!([]));
                    let mut l = of.as_array().cloned().unwrap_or_default();
                    l.push(json!([x.json["id"], "Owner"]));
                    *of = json!(l);
                }
                self.check(m, &key, &x.json, "create");
                m.count("created", 1);
            }
            4..=6 => {
                let fields = Self::update_fields(kind);
                let Some(key) = self.pick(r, kind, pid, false) else { return };
                if fields.is_empty() || self.kept(&key) && kind != "projects" {
                    return;
                }
                let mut b = json!({});
                let old = self.all[&key].clone();
                let mut freed = vec![];
                for f in fields {
                    if r.chance(1, 3) {
                        let v = if r.chance(1, 6) { old.has.get(*f).cloned().unwrap_or(Json::Null) } else { self.field(r, kind, pid, f) };
                        let was = old.has.get(*f).cloned().unwrap_or(Json::Null);
                        let named = if kind == "accounts" { "email" } else { "name" };
                        if *f == named && was != v {
                            freed.extend(was.as_str().map(|x| x.to_string()));
                        }
                        b[*f] = v;
                    }
                }
                if kind == "reports" && b.get("query").is_some() {
                    b["type"] = b["query"]["type"].clone();
                }
                if kind == "projects" && r.chance(1, 4) {
                    self.n += 1;
                    b["token"] = json!(format!("token {}", self.n));
                }
                self.log.push(format!("{by}: update {key:?} {b}"));
                let x = match self.api(by, "PUT", &format!("{path}/{}", key.2), &b) {
                    Ok(x) if x.status == 200 => x,
                    x => return self.vio(m, &format!("update {kind}"), format!("PUT {path}/{} {b}: {}", key.2, answer(&x))),
                };
                let e = self.all.get_mut(&key).unwrap();
                for (k, v) in b.as_object().unwrap() {
                    let k = if k == "token" { "sdkToken" } else { k };
                    e.has.insert(k.to_string(), v.clone());
                }
                e.has.insert("updatedBy".into(), json!(by));
                let shown = camel(&x.json);
                e.updated = shown["updatedAt"].clone();
                self.free.entry((kind, pid)).or_default().extend(freed);
                if !within(&shown["updatedAt"]) {
                    self.vio(m, &format!("time of change of {kind}"), format!("{} not since {t0}", shown["updatedAt"]));
                }
                self.check(m, &key, &x.json, "update");
                m.count("updated", 1);
                if let Some(id) = self.projects.iter().map(|p| p.id).find(|id| kind == "projects" && key.2 == id.to_string()) {
                    self.named_records(m, r, id);
                }
            }
            7 | 8 => {
                let Some(key) = self.pick(r, kind, pid, false) else { return };
                // bookmarks are of those who made them
                let by = if kind == "bookmarks" { self.all[&key].has["createdBy"].as_u64().unwrap() } else { by };
                match self.api(by, "GET", &format!("{path}/{}", key.2), &Json::Null) {
                    Ok(x) if x.status == 200 => self.check(m, &key, &x.json, "id"),
                    x => self.vio(m, &format!("get {kind}"), format!("GET {path}/{}: {}", key.2, answer(&x))),
                }
                m.count("read by id", 1);
            }
            9 | 10 => {
                if kind == "bookmarks" {
                    return;
                }
                let x = match self.api(by, "GET", &path, &Json::Null) {
                    Ok(x) if x.status == 200 => x,
                    x => return self.vio(m, &format!("list {kind}"), format!("GET {path}: {}", answer(&x))),
                };
                let got: Vec<Json> = x.json["data"].as_array().cloned().unwrap_or_default();
                let mut ids: Vec<String> = got.iter().filter_map(id_of).collect();
                ids.sort();
                let mut want: Vec<String> =
                    self.all.iter().filter(|(k, e)| k.0 == kind && k.1 == pid && !e.gone).map(|(k, _)| k.2.clone()).collect();
                want.sort();
                if ids != want {
                    self.vio(m, &format!("list of {kind}"), format!("{path} lists {ids:?}, there are {want:?}"));
                }
                for v in &got {
                    self.check(m, &(kind, pid, id_of(v).unwrap_or_default()), v, "list");
                }
                m.count("lists read", 1);
            }
            11 => {
                // by name
                let Some(key) = self.pick(r, kind, pid, false) else { return };
                if !matches!(kind, "events" | "event-properties" | "group-properties/0" | "group-properties/1") {
                    return;
                }
                let name = self.all[&key].has["name"].as_str().unwrap().to_string();
                let coded: String = name.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect();
                match self.api(by, "GET", &format!("{path}/name/{coded}"), &Json::Null) {
                    Ok(x) if x.status == 200 => self.check(m, &key, &x.json, "name"),
                    x => self.vio(m, &format!("{kind} by name"), format!("{name:?}: {}", answer(&x))),
                }
                m.count("read by name", 1);
            }
            12 => {
                let Some(key) = self.pick(r, kind, pid, false) else { return };
                if self.kept(&key) || kind == "bookmarks" || r.bool() {
                    return;
                }
                // events others are made of stay
                if kind == "events" {
                    let name = self.all[&key].has["name"].to_string();
                    if self.all.iter().any(|(k, e)| k.0 == "custom-events" && k.1 == pid && !e.gone && e.has["events"].to_string().contains(&name)) {
                        return;
                    }
                }
                // and what filters name
                if self.all[&key].has.get("name") == Some(&json!("shared")) {
                    return;
                }
                self.log.push(format!("{by}: delete {key:?}"));
                match self.api(by, "DELETE", &format!("{path}/{}", key.2), &Json::Null) {
                    Ok(x) if x.status == 200 => self.check(m, &key, &x.json, "delete"),
                    x => return self.vio(m, &format!("delete {kind}"), format!("DELETE {path}/{}: {}", key.2, answer(&x))),
                }
                // names of what is tracked are not for others
                if Self::create_fields(kind).contains(&"name") || kind == "accounts" {
                    self.free_names(&key);
                }
                let e = self.all.get_mut(&key).unwrap();
                e.gone = true;
                if kind == "event-properties" {
                    let id: u64 = key.2.parse().unwrap();
                    for (k, e) in self.all.iter_mut() {
                        if k.0 == "events" && k.1 == pid {
                            // whether it stays attached is not judged
                            if e.has.get("eventProperties").and_then(|l| l.as_array()).is_some_and(|l| l.contains(&json!(id))) {
                                e.has.remove("eventProperties");
                            }
                        }
                    }
                }
                m.count("deleted", 1);
            }
            13 => {
                let Some(key) = self.pick(r, kind, pid, true) else { return };
                let (method, b) = match r.range(0, 2) {
                    0 => ("GET", Json::Null),
                    1 => ("PUT", json!({"description": "x"})),
                    _ => ("DELETE", Json::Null),
                };
                match self.api(by, method, &format!("{path}/{}", key.2), &b) {
                    Ok(x) if x.status == 404 => {}
                    Ok(x) if kind == "projects" && x.status == 403 => {}
                    x => self.vio(m, &format!("{method} of deleted {kind}"), format!("{path}/{} was deleted: {}", key.2, answer(&x))),
                }
                m.count("deleted asked for", 1);
            }
            14 => {
                // properties of events
                let pid = r.pick(&self.projects).id;
                let (Some(e), Some(p)) = (self.pick(r, "events", pid, false), self.pick(r, "event-properties", pid, false)) else { return };
                let Some(list) = self.all[&e].has.get("eventProperties").cloned() else { return };
                let mut l: Vec<u64> = list.as_array().map(|l| l.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
                let p: u64 = if !l.is_empty() && r.bool() { *r.pick(&l) } else { p.2.parse().unwrap() };
                let attached = l.contains(&p);
                let attach = if r.chance(1, 6) { attached } else { !attached };
                let path = format!("{}/{}/properties/{p}", self.path("events", pid), e.2);
                self.log.push(format!("{by}: {} {path}", if attach { "attach" } else { "detach" }));
                let x = self.api(by, if attach { "POST" } else { "DELETE" }, &path, &Json::Null);
                match (attach != attached, &x) {
                    (true, Ok(x)) if x.ok() => {
                        if attach {
                            l.push(p)
                        } else {
                            l.retain(|x| *x != p)
                        }
                        let e1 = self.all.get_mut(&e).unwrap();
                        e1.has.insert("eventProperties".into(), json!(l));
                        e1.updated = x.json["updatedAt"].clone();
                        e1.has.insert("updatedBy".into(), x.json["updatedBy"].clone());
                        let got = x.json.clone();
                        self.check(m, &e, &got, "attach");
                        m.count("attached or detached", 1);
                    }
                    (false, Ok(x)) if x.status / 100 == 4 => m.count("attached already", 1),
                    _ => self.vio(m, if attach { "attach" } else { "detach" }, format!("{path} (attached {attached}): {}", answer(&x))),
                }
            }
            _ => {
                // groups of a project
                let i = r.below(self.projects.len());
                let pid = self.projects[i].id;
                let path = format!("/api/v1/projects/{pid}/groups");
                if r.bool() && self.projects[i].groups.len() < 2 {
                    let name = format!("group {}", r.range(0, 3));
                    let b = json!({"name": name, "displayName": format!("{name} shown")});
                    self.log.push(format!("{by}: group {pid} {name}"));
                    match self.api(by, "POST", &path, &b) {
                        Ok(x) if x.ok() => {
                            let id = x.json["id"].as_u64().unwrap_or(u64::MAX);
                            let p = &mut self.projects[i];
                            match p.groups.iter().find(|g| g.1 == name) {
                                Some(g) if g.0 != id => self.vio(m, "group", format!("{name} had another id: {}", x.text)),
                                Some(_) => {}
                                None => p.groups.push((id, name)),
                            }
                        }
                        x => self.vio(m, "group", format!("{path} {b}: {}", answer(&x))),
                    }
                }
                match self.api(by, "GET", &path, &Json::Null) {
                    Ok(x) if x.status == 200 => {
                        let got: Vec<(u64, &str)> = x.json["data"]
                            .as_array()
                            .map(|l| l.iter().map(|g| (g["id"].as_u64().unwrap_or(99), g["name"].as_str().unwrap_or(""))).collect())
                            .unwrap_or_default();
                        for (id, name) in &self.projects[i].groups {
                            if got.iter().filter(|g| g.1 == name).count() != 1 || !got.contains(&(*id, name)) {
                                self.vio(m, "list of groups", format!("{name} ({id}) among {got:?}"));
                            }
                        }
                        let mut ids: Vec<u64> = got.iter().map(|g| g.0).collect();
                        ids.sort();
                        ids.dedup();
                        if ids.len() != got.len() {
                            self.vio(m, "list of groups", format!("one id twice: {got:?}"));
                        }
                        m.count("groups listed", 1);
                    }
                    x => self.vio(m, "groups", format!("{path}: {}", answer(&x))),
                }
            }
        }
    }
}
fn answer(x: &Result<Resp, String>) -> String {
    match x {
        Ok(x) => format!("{} {}", x.status, short(&x.text)),
        Err(e) => short(e),
    }
}
pub fn run(m: &mut Mon, r: &mut Rng, n: usize, secs: (u64, u64)) {
    let t = Instant::now();
    let limit = Duration::from_secs(if m.thorough() { secs.1 } else { secs.0 });
    for _ in 0..if m.thorough() { n * 20 } else { n } {
        if t.elapsed() > limit {
            break;
        }
        let mut r = r.fork();
        let mut w = W::new(&mut r);
        let steps = r.range(60, 400);
        for i in 0..steps {
            w.step(m, &mut r);
            if i % 150 == 149 && r.bool() {
                w.log.push("restart".into());
                w.s = w.s.restart();
                m.count("restarts", 1);
            }
        }
        // in the end, all there is
        let by = w.accounts[0];
        for (kind, pid) in w.scopes() {
            if kind == "bookmarks" {
                continue;
            }
            let path = w.path(kind, pid);
            let Ok(x) = w.api(by, "GET", &path, &Json::Null) else { continue };
            let got = x.json["data"].as_array().cloned().unwrap_or_default();
            let want = w.all.iter().filter(|(k, e)| k.0 == kind && k.1 == pid && !e.gone).count();
            if got.len() != want {
                w.vio(m, &format!("list of {kind}"), format!("{} listed in the end, there are {want}", got.len()));
            }
            for v in &got {
                w.check(m, &(kind, pid, id_of(v).unwrap_or_default()), v, "list");
            }
        }
        m.observed(mon::hash_of(&w.log), w.log.len() > 20);
        m.sample(|| json!({"history": w.log.iter().take(30).collect::<Vec<_>>()}));
        m.count("histories", 1);
        w.s.discard();
    }
}
