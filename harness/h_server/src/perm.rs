//! Who may do what: every operation of the interface, tried by accounts of all roles on projects of
//! their own and of other organisations.
use std::collections::BTreeMap;
use std::time::Duration;
use std::time::Instant;

use common::rbac::OrganizationRole as OR;
use common::rbac::ProjectRole as PR;
use common::rbac::Role;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value as Json;

use crate::server::Resp;
use crate::server::Server;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OP {
    View,
    Manage,
    ManageProjects,
    Explore,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PP {
    Manage,
    Delete,
    View,
    ManageSchema,
    DeleteSchema,
    ViewSchema,
    Explore,
    ManageReports,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Need {
    /// a server-wide role
    Global,
    /// a role in the organisation named in the request
    Org(OP),
    /// a role in the organisation the account acts in
    Own(OP),
    Project(PP),
}
#[derive(Clone)]
pub struct Acc {
    pub id: u64,
    pub admin: bool,
    pub orgs: Vec<(u64, OR)>,
    pub projects: Vec<(u64, PR)>,
}
#[derive(Clone, Default)]
pub struct Project {
    pub id: u64,
    pub org: u64,
    pub mark: String,
    pub sdk: String,
    pub alive: bool,
    /// ids and names of what it holds, by kind
    pub has: BTreeMap<&'static str, Vec<String>>,
}
fn org_can(role: &OR, p: OP) -> bool {
    match role {
        OR::Owner => true,
        OR::Admin => p == OP::ManageProjects,
        OR::Member => false,
    }
}
fn project_can(role: &PR, p: PP) -> bool {
    use PP::*;
    match role {
        PR::Owner => true,
        PR::Admin => matches!(p, Manage | Explore | ManageReports | ViewSchema | ManageSchema),
        PR::Member => matches!(p, Explore | ManageReports | ViewSchema | ManageSchema),
        PR::Reader => matches!(p, Explore | ViewSchema),
    }
}
pub fn may(a: &Acc, ctx_org: u64, need: Need, org: u64, project: &Project) -> bool {
    if a.admin {
        return true;
    }
    let role = |o: u64| a.orgs.iter().find(|x| x.0 == o).map(|x| x.1.clone());
    match need {
        Need::Global => false,
        Need::Org(p) => role(org).map(|r| org_can(&r, p)).unwrap_or(false),
        Need::Own(p) => role(ctx_org).map(|r| org_can(&r, p)).unwrap_or(false),
        Need::Project(p) => {
            if project.alive && project.org == ctx_org && matches!(role(ctx_org), Some(OR::Owner) | Some(OR::Admin)) {
                return true;
            }
            a.projects.iter().find(|x| x.0 == project.id).map(|x| project_can(&x.1, p)).unwrap_or(false)
        }
    }
}
/// Has the account anything to do with the project at all?
pub fn knows(a: &Acc, p: &Project) -> bool {
    a.admin || a.orgs.iter().any(|o| o.0 == p.org) || a.projects.iter().any(|x| x.0 == p.id)
}

pub struct World {
    pub s: Server,
    pub orgs: Vec<u64>,
    pub projects: Vec<Project>,
    pub accounts: Vec<Acc>,
    pub n: usize,
    pub marks: usize,
}
pub fn filter(name: &str, op: &str, value: Json) -> Json {
    json!({"type": "property", "propertyType": "event", "propertyName": name, "operation": op, "value": value})
}
pub fn segmentation(event: &str) -> Json {
    json!({
        "time": {"type": "last", "last": 3, "unit": "day"}, "group": 0, "intervalUnit": "day",
        "chartType": "line", "analysis": {"type": "linear"},
        "events": [{"eventType": "regular", "eventName": event, "queries": [{"type": "countEvents"}]}]
    })
}
pub fn funnel(event: &str) -> Json {
    json!({
        "time": {"type": "last", "last": 3, "unit": "day"}, "group": 0,
        "steps": [{"events": [{"eventType": "regular", "eventName": event}], "order": {"type": "exact"}}],
        "timeWindow": {"n": 10, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique"
    })
}
fn typed(kind: &str, mut q: Json) -> Json {
    q["type"] = json!(kind);
    q
}
pub struct Op {
    pub name: &'static str,
    pub need: Need,
    pub method: &'static str,
    pub path: String,
    pub body: Json,
}
impl World {
    pub fn new(r: &mut Rng) -> World {
        let s = Server::new();
        s.admin();
        let mut w = World { s, orgs: vec![], projects: vec![], accounts: vec![], n: 0, marks: 0 };
        for i in 0..3 {
            let o = w.s.org(&format!("org{i}"));
            w.orgs.push(o);
        }
        for i in [0, 0, 1, 2] {
            w.add_project(r, i);
        }
        w
    }
    pub fn next(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    pub fn add_project(&mut self, r: &mut Rng, org: usize) {
        self.marks += 1;
        let mark = format!("zq{}Z", self.marks);
        let org = self.orgs[org];
        let (id, sdk) = self.s.project(org, &format!("p {mark}"), 7200);
        self.projects.push(Project { id, org, mark, sdk, alive: true, has: BTreeMap::new() });
        let at = self.projects.len() - 1;
        self.fill(r, at);
    }
    fn admin(&self, method: &str, path: &str, body: Json) -> Resp {
        self.s.api(self.s.admin(), self.orgs[0], method, path, &body).unwrap_or_else(|e| panic!("harness: {path}: {e}"))
    }
    /// Contents that carry the mark of the project everywhere.
    fn fill(&mut self, r: &mut Rng, at: usize) {
        let p = self.projects[at].clone();
        let base = format!("/api/v1/projects/{}", p.id);
        let m = &p.mark;
        for i in 0..r.range(1, 3) {
            for (event, user) in [(format!("ev {m} {i}"), format!("u {m}"))] {
                let b = json!({
                    "event": event, "userId": user, "context": {},
                    "properties": {format!("text {m}"): format!("v {m}"), format!("num {m}"): 5, format!("flag {m}"): true}
                });
                let x = self
                    .s
                    .call("POST", &format!("/api/v1/ingest/{}/track", p.sdk), &[("content-type", "application/json")], &b.to_string())
                    .unwrap();
                assert!(x.status == 201, "harness: {x:?}");
            }
        }
        let b = json!({"group": "company", "id": format!("c {m}"), "context": {}, "properties": {format!("gtext {m}"): format!("gv {m}")}});
        let x = self
            .s
            .call("POST", &format!("/api/v1/ingest/{}/identify", p.sdk), &[("content-type", "application/json")], &b.to_string())
            .unwrap();
        assert!(x.status / 100 == 2, "harness: {x:?}");
        for _ in 0..r.range(1, 3) {
            self.create(at, "dashboards");
            self.create(at, "reports");
            self.create(at, "custom-events");
            self.create(at, "events");
        }
        self.refresh(at);
    }
    pub fn refresh(&mut self, at: usize) {
        let id = self.projects[at].id;
        let base = format!("/api/v1/projects/{id}");
        for (kind, path) in [
            ("events", "schema/events"),
            ("custom-events", "schema/custom-events"),
            ("dashboards", "dashboards"),
            ("reports", "reports"),
            ("event-properties", "schema/event-properties"),
            ("group-properties", "schema/group-properties/1"),
        ] {
            let l = self.admin("GET", &format!("{base}/{path}"), Json::Null);
            let ids = l.json["data"]
                .as_array()
                .unwrap_or_else(|| panic!("harness: {path}: {l:?}"))
                .iter()
                // those of a project's own are kept whole
                .filter(|x| !kind.contains("propert") || x["name"].as_str().unwrap_or("").contains(&self.projects[at].mark))
                .map(|x| x["id"].as_u64().map(|i| i.to_string()).unwrap_or_default())
                .collect::<Vec<_>>();
            self.projects[at].has.insert(kind, ids);
        }
    }
    fn body(&mut self, at: usize, kind: &str) -> Json {
        let n = self.next();
        let m = self.projects[at].mark.clone();
        let ev = format!("ev {m} 0");
        match kind {
            "dashboards" => json!({
                "name": format!("d{n} {m}"), "description": m,
                "panels": [{"type": "report", "reportId": 1, "x": 1, "y": 2, "w": 3, "h": 4}]
            }),
            "reports" => json!({
                "name": format!("r{n} {m}"), "type": "eventSegmentation",
                "query": typed("eventSegmentation", segmentation(&ev))
            }),
            "custom-events" => json!({
                "name": format!("c{n} {m}"), "status": "enabled", "isSystem": false,
                "events": [{"eventType": "regular", "eventName": ev}]
            }),
            "events" => json!({"name": format!("e{n} {m}"), "status": "enabled", "isSystem": false, "tags": [m]}),
            _ => unreachable!(),
        }
    }
    fn path(at: &Project, kind: &str) -> String {
        match kind {
            "dashboards" | "reports" => format!("/api/v1/projects/{}/{kind}", at.id),
            _ => format!("/api/v1/projects/{}/schema/{kind}", at.id),
        }
    }
    fn create(&mut self, at: usize, kind: &'static str) {
        let b = self.body(at, kind);
        let x = self.admin("POST", &Self::path(&self.projects[at], kind), b);
        assert!(x.status == 201, "harness: {kind}: {x:?}");
        let id = x.json["id"].as_u64().unwrap().to_string();
        self.projects[at].has.entry(kind).or_default().push(id);
    }
    pub fn account(&mut self, r: &mut Rng) -> Acc {
        let n = self.next();
        let admin = r.chance(1, 12);
        let mut orgs = vec![];
        for o in self.orgs.clone() {
            if r.chance(2, 5) {
                orgs.push((o, r.pick(&[OR::Owner, OR::Admin, OR::Member]).clone()));
            }
        }
        let mut projects = vec![];
        for p in &self.projects {
            if r.chance(1, 3) {
                projects.push((p.id, r.pick(&[PR::Owner, PR::Admin, PR::Member, PR::Reader]).clone()));
            }
        }
        if r.chance(1, 2) {
            orgs.reverse();
            projects.reverse();
        }
        let id = self.s.account(
            &format!("a{n}@example.com"),
            if admin { Some(Role::Admin) } else { None },
            orgs.clone(),
            projects.clone(),
        );
        Acc { id, admin, orgs, projects }
    }
    /// An operation on project `at`; what it names is taken from project `of`.
    pub fn op(&mut self, r: &mut Rng, at: usize, of: usize) -> (Op, u64) {
        let p = self.projects[at].clone();
        let q = self.projects[of].clone();
        let base = format!("/api/v1/projects/{}", p.id);
        let n = self.next();
        let m = p.mark.clone();
        let id = |r: &mut Rng, kind: &str| -> String {
            let l = q.has.get(kind).cloned().unwrap_or_default();
            if l.is_empty() || r.chance(1, 15) { "777777".to_string() } else { r.pick(&l).clone() }
        };
        let org = *r.pick(&self.orgs.clone());
        let qm = q.mark.clone();
        let ev = format!("ev {qm} 0");
        let last = json!({"type": "last", "last": 3, "unit": "day"});
        use Need::*;
        let crud = |r: &mut Rng, kind: &'static str, w: &mut World| -> (Need, &'static str, String, Json) {
            let base = Self::path(&p, kind);
            let schema = kind.ends_with("events");
            let (view, manage, del) = if schema {
                (PP::ViewSchema, PP::ManageSchema, PP::DeleteSchema)
            } else {
                (PP::Explore, PP::ManageReports, PP::ManageReports)
            };
            match r.range(0, 4) {
                0 => (Project(manage), "POST", base, w.body(at, kind)),
                1 => (Project(view), "GET", base, Json::Null),
                2 => (Project(view), "GET", format!("{base}/{}", id(r, kind)), Json::Null),
                3 => (Project(manage), "PUT", format!("{base}/{}", id(r, kind)), json!({"description": format!("new {m} {n}")})),
                _ => (Project(del), "DELETE", format!("{base}/{}", id(r, kind)), Json::Null),
            }
        };
        let props = |r: &mut Rng, kind: &'static str, base: String| -> (Need, &'static str, String, Json) {
            let name = if kind == "event-properties" { format!("text {qm}") } else { format!("gtext {qm}") };
            match r.range(0, 4) {
                0 => (Project(PP::ViewSchema), "GET", format!("{base}/name/{}", name.replace(' ', "%20")), Json::Null),
                1 => (Project(PP::ViewSchema), "GET", base, Json::Null),
                2 => (Project(PP::ViewSchema), "GET", format!("{base}/{}", id(r, kind)), Json::Null),
                3 => (Project(PP::ManageSchema), "PUT", format!("{base}/{}", id(r, kind)), json!({"description": format!("new {m} {n}")})),
                // kept, for what uses them: one that is not there
                _ => (Project(PP::DeleteSchema), "DELETE", format!("{base}/{}", if r.chance(1, 4) { id(r, kind) } else { "888888".into() }), Json::Null),
            }
        };
        let v: (&'static str, (Need, &'static str, String, Json)) = match r.range(0, 23) {
            0 => ("dashboards", crud(r, "dashboards", self)),
            1 => ("reports", crud(r, "reports", self)),
            2 => ("custom events", crud(r, "custom-events", self)),
            3 => ("events", crud(r, "events", self)),
            4 => ("event properties", props(r, "event-properties", format!("{base}/schema/event-properties"))),
            5 => ("group properties", props(r, "group-properties", format!("{base}/schema/group-properties/1"))),
            6 => (
                "event segmentation",
                (Project(PP::Explore), "POST", format!("{base}/queries/event-segmentation"), segmentation(&ev)),
            ),
            7 => ("funnel", (Project(PP::Explore), "POST", format!("{base}/queries/funnel"), funnel(&ev))),
            8 => ("event records", (Project(PP::Explore), "POST", format!("{base}/event-records/search"), json!({"time": last}))),
            9 => (
                "event record",
                (Project(PP::Explore), "GET", format!("{base}/event-records/{}", r.range(1, 12)), Json::Null),
            ),
            10 => ("group records", (Project(PP::Explore), "POST", format!("{base}/group-records/search"), json!({"group": 1}))),
            11 => (
                "group record",
                (Project(PP::Explore), "GET", format!("{base}/group-records/1/c%20{qm}"), Json::Null),
            ),
            12 => (
                "property values",
                (
                    Project(PP::Explore),
                    "POST",
                    format!("{base}/property-values"),
                    json!({"propertyType": "event", "propertyName": format!("text {qm}"), "eventType": "regular", "eventName": ev}),
                ),
            ),
            13 => {
                let b = match r.range(0, 2) {
                    0 => json!({}),
                    1 => json!({"query": typed("eventSegmentation", segmentation(&ev))}),
                    _ => json!({"query": typed("funnel", funnel(&ev))}),
                };
                ("bookmarks", (Project(PP::Explore), "POST", format!("{base}/bookmarks"), b))
            }
            14 => ("bookmark", (Project(PP::Explore), "GET", format!("{base}/bookmarks/{}", id(r, "bookmarks")), Json::Null)),
            15 => (
                "attach",
                (
                    Project(PP::ManageSchema),
                    *r.pick(&["POST", "DELETE"]),
                    format!("{base}/schema/events/{}/properties/{}", id(r, "events"), id(r, "event-properties")),
                    Json::Null,
                ),
            ),
            16 => (
                "event by name",
                (Project(PP::ViewSchema), "GET", format!("{base}/schema/events/name/{}", ev.replace(' ', "%20")), Json::Null),
            ),
            17 => {
                if r.chance(1, 2) {
                    ("groups", (Project(PP::ViewSchema), "GET", format!("{base}/groups"), Json::Null))
                } else {
                    // one it has already, so that groups do not run out
                    (
                        "group",
                        (Project(PP::ManageSchema), "POST", format!("{base}/groups"), json!({"name": "company", "displayName": "company"})),
                    )
                }
            }
            18 => match r.range(0, 9) {
                0 => ("delete project", (Project(PP::Delete), "DELETE", base, Json::Null)),
                1..=4 => ("project", (Project(PP::View), "GET", base, Json::Null)),
                _ => ("change project", (Project(PP::Manage), "PUT", base, json!({"description": format!("new {m} {n}")}))),
            },
            19 => match r.range(0, 2) {
                0 | 1 => ("projects", (Own(OP::Explore), "GET", "/api/v1/projects".into(), Json::Null)),
                _ => ("create project", (Own(OP::ManageProjects), "POST", "/api/v1/projects".into(), json!({"name": format!("new{n}")}))),
            },
            20 => match r.range(0, 4) {
                0 => ("organizations", (Global, "GET", "/api/v1/organizations".into(), Json::Null)),
                1 => ("create organization", (Global, "POST", "/api/v1/organizations".into(), json!({"name": format!("o{n}")}))),
                2 => ("organization", (Org(OP::View), "GET", format!("/api/v1/organizations/{org}"), Json::Null)),
                3 => (
                    "change organization",
                    (Org(OP::Manage), "PUT", format!("/api/v1/organizations/{org}"), json!({"name": format!("o{n}")})),
                ),
                _ => ("delete organization", (Global, "DELETE", format!("/api/v1/organizations/{}", if r.chance(1, 2) { 999 } else { org }), Json::Null)),
            },
            21 => {
                let some = r.pick(&self.accounts).id;
                match r.range(0, 4) {
                    0 => ("accounts", (Global, "GET", "/api/v1/accounts".into(), Json::Null)),
                    1 => ("account", (Global, "GET", format!("/api/v1/accounts/{some}"), Json::Null)),
                    2 => (
                        "create account",
                        (
                            Global,
                            "POST",
                            "/api/v1/accounts".into(),
                            json!({"password": "correct horse 12", "email": format!("n{n}@example.com"), "forceUpdatePassword": false, "forceUpdateEmail": false}),
                        ),
                    ),
                    3 => (
                        "change account",
                        (
                            Global,
                            "PUT",
                            "/api/v1/accounts/666666".into(),
                            json!({"name": "x"}),
                        ),
                    ),
                    _ => ("delete account", (Global, "DELETE", "/api/v1/accounts/666666".into(), Json::Null)),
                }
            }
            22 => match r.range(0, 4) {
                0 => ("backups", (Global, "GET", "/api/v1/admin/backups".into(), Json::Null)),
                1 => ("backup", (Global, "GET", format!("/api/v1/admin/backups/{}", r.range(1, 3)), Json::Null)),
                2 => ("make backup", (Global, "POST", "/api/v1/admin/backups/backup".into(), Json::Null)),
                3 => ("settings", (Global, "GET", "/api/v1/admin/settings".into(), Json::Null)),
                _ => (
                    "change settings",
                    (Global, "PUT", "/api/v1/admin/settings".into(), json!({"backupEnabled": false, "authAccessToken": format!("key {n}")})),
                ),
            },
            _ => (
                "switch organization",
                (Org(OP::View), "POST", format!("/api/v1/auth/switch-organization/{org}"), Json::Null),
            ),
        };
        let (name, (need, method, path, body)) = v;
        (Op { name, need, method, path, body }, org)
    }
}
/// operation, method, depth of the path, roles
type Kind = (&'static str, &'static str, usize, String);
type Dump = BTreeMap<Vec<u8>, Vec<u8>>;
fn state(s: &Server) -> Result<(Dump, Vec<usize>), String> {
    let mut n = vec![];
    for t in ["events", "group_0", "group_1"] {
        n.push(s.rows(t)?.len());
    }
    Ok((s.kv.dump(), n))
}
fn differs(a: &Dump, b: &Dump) -> Vec<String> {
    let mut out = vec![];
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            out.push(String::from_utf8_lossy(k).to_string());
        }
    }
    out.sort();
    out.dedup();
    out
}
/// `judge` P02: what is granted and refused to accounts that have to do with the project; P03: that
/// nobody reaches the projects of others.
pub fn run(m: &mut Mon, r: &mut Rng, judge: &'static str, worlds: u64, secs: (u64, u64)) {
    let limit = Duration::from_secs(if !m.thorough() { secs.0 } else { secs.1 });
    let start = Instant::now();
    let total = if !m.thorough() { worlds } else { worlds * 20 };
    let mut seen: BTreeMap<Kind, u32> = BTreeMap::new();
    for wi in 0..total {
        if start.elapsed() > limit {
            m.count("worlds left out for time", total - wi);
            break;
        }
        let mut w = World::new(r);
        for _ in 0..6 {
            let a = w.account(r);
            w.accounts.push(a);
        }
        let mut log: Vec<String> = vec![];
        for _ in 0..r.range(60, 140) {
            if r.chance(1, 10) {
                let a = w.account(r);
                w.accounts.push(a);
            }
            // of several candidates the one whose like was seen least so far
            let mut best: Option<(u32, Kind, Acc, u64, usize, usize, Op, u64)> = None;
            for _ in 0..if r.chance(1, 5) { 1 } else if judge == "P02" { 10 } else { 3 } {
                let acc = r.pick(&w.accounts).clone();
                let ctx = match r.range(0, 9) {
                    0 => 0,
                    1 => 999,
                    2..=5 if !acc.orgs.is_empty() => r.pick(&acc.orgs).0,
                    _ => *r.pick(&w.orgs),
                };
                let at = r.range(0, w.projects.len() as i64 - 1) as usize;
                let of = if r.chance(1, 4) { r.range(0, w.projects.len() as i64 - 1) as usize } else { at };
                let (op, org) = w.op(r, at, of);
                let p = &w.projects[at];
                let role = |o: u64| acc.orgs.iter().find(|x| x.0 == o).map(|x| format!("{:?}", x.1));
                let kind: Kind = (
                    op.name,
                    op.method,
                    op.path.matches('/').count(),
                    format!("{} {:?} {:?}", acc.admin, role(ctx), match op.need {
                        Need::Project(_) => format!("{:?} {} {}", acc.projects.iter().find(|x| x.0 == p.id).map(|x| format!("{:?}", x.1)), p.org == ctx, p.alive),
                        Need::Org(_) => format!("{:?}", role(org)),
                        _ => String::new(),
                    }),
                );
                let n = *seen.get(&kind).unwrap_or(&0);
                if best.as_ref().map(|b| n < b.0).unwrap_or(true) {
                    best = Some((n, kind, acc, ctx, at, of, op, org));
                }
            }
            let (_, kind, acc, ctx, at, of, op, org) = best.unwrap();
            let k = seen.entry(kind).or_default();
            if *k == 0 {
                m.count("kinds of operations and roles", 1);
            }
            *k += 1;
            let p = w.projects[at].clone();
            let allowed = may(&acc, ctx, op.need, org, &p);
            let line = format!(
                "account {} (admin {}, organisations {:?}, projects {:?}) in {ctx}: {} {} {} on project {} of organisation {}{} -> {}",
                acc.id, acc.admin, acc.orgs, acc.projects, op.name, op.method, op.path, p.id, p.org,
                if p.alive { "" } else { " (deleted)" },
                if allowed { "granted" } else { "refused" },
            );
            log.push(line.clone());
            let input = || {
                let from = log.len().saturating_sub(25);
                json!({"log": log[from..].to_vec(), "body": op.body})
            };
            let before = match state(&w.s) {
                Ok(b) => b,
                Err(e) => {
                    m.violation("rows cannot be read", format!("{judge}: {}", e), input());
                    break;
                }
            };
            let resp = match w.s.api(acc.id, ctx, op.method, &op.path, &op.body) {
                Ok(x) => x,
                Err(e) => {
                    m.violation(&format!("failed: {}", op.name), format!("{line}: {e}"), input());
                    break;
                }
            };
            let after = match state(&w.s) {
                Ok(b) => b,
                Err(e) => {
                    m.violation("rows cannot be read", format!("{judge}: {}", e), input());
                    break;
                }
            };
            let changed = differs(&before.0, &after.0);
            m.observed((op.name, op.method, resp.status, allowed), true);
            if judge == "P02" {
                if allowed {
                    m.count("operations granted", 1);
                    if resp.status == 401 || (resp.status == 403 && !resp.text.contains("backup is disabled")) {
                        m.violation(&format!("refused: {}", op.name), format!("{line}: answered {} {}", resp.status, resp.text), input());
                    }
                } else {
                    m.count("operations refused", 1);
                    let absent = matches!(op.need, Need::Project(_)) && !p.alive && resp.status == 404;
                    if resp.status != 403 && !absent {
                        m.violation(&format!("granted: {}", op.name), format!("{line}: answered {} {}", resp.status, short(&resp.text)), input());
                    } else if !changed.is_empty() || before.1 != after.1 {
                        m.violation(&format!("refused with effect: {}", op.name), format!("{line}: changed {changed:?}"), input());
                    }
                }
            } else {
                // a listing in the name of an organisation is of that organisation's projects
                if op.name == "projects" && resp.ok() {
                    for id in resp.json["data"].as_array().into_iter().flatten().filter_map(|x| x["id"].as_u64()) {
                        m.count("projects listed", 1);
                        if let Some(q) = w.projects.iter().find(|q| q.id == id && q.org != ctx) {
                            m.violation("listed of another", format!("{line}: lists project {} of organisation {}", q.id, q.org), input());
                        }
                    }
                }
                // nothing of a project the account has nothing to do with shows, or changes
                for q in w.projects.iter().filter(|q| !knows(&acc, q)) {
                    m.count("foreign projects watched", 1);
                    let foreign = q.id == p.id && matches!(op.need, Need::Project(_));
                    if foreign {
                        m.count("foreign projects tried", 1);
                    } else if of != at && w.projects[of].id == q.id {
                        m.count("foreign ids tried", 1);
                    }
                    // what the request itself said may be repeated in an error
                    if resp.ok() && resp.text.contains(&q.mark) && !op.path.contains(&q.mark) && !op.body.to_string().contains(&q.mark) {
                        m.violation(&format!("shown: {}", op.name), format!("{line}: the answer names {}: {}", q.mark, short(&resp.text)), input());
                    }
                    if foreign && resp.ok() {
                        m.violation(&format!("reached: {}", op.name), format!("{line}: answered {} {}", resp.status, short(&resp.text)), input());
                    }
                    let of_q = [format!("projects/{}/", q.id), format!("projects/data/{}", q.id)];
                    if let Some(k) = changed.iter().find(|k| k.starts_with(&of_q[0]) || **k == of_q[1]) {
                        m.violation(&format!("changed: {}", op.name), format!("{line}: changed {k} of project {}", q.id), input());
                    }
                    if q.org != 0 && !acc.orgs.iter().any(|o| o.0 == q.org) && resp.ok() && matches!(op.need, Need::Org(_)) && org == q.org {
                        m.violation(&format!("organisation reached: {}", op.name), format!("{line}: answered {}", resp.status), input());
                    }
                }
            }
            // keep up with what happened
            if resp.ok() {
                match op.name {
                    "delete project" => {
                        w.projects[at].alive = false;
                        if w.projects.iter().filter(|p| p.alive).count() < 4 {
                            w.add_project(r, at % 3);
                        }
                    }
                    "bookmarks" => {
                        if let Some(id) = resp.json["id"].as_str() {
                            w.projects[at].has.entry("bookmarks").or_default().push(id.to_string());
                        }
                    }
                    "delete organization" => {
                        let o = w.orgs.iter().position(|o| *o == org).unwrap();
                        if op.path.ends_with("/999") {
                            continue;
                        }
                        let n = w.next();
                        w.orgs[o] = w.s.org(&format!("again{n}"));
                    }
                    "create project" | "create organization" => {}
                    _ => {
                        if (op.method == "POST" || op.method == "DELETE") && p.alive && matches!(op.need, Need::Project(_)) {
                            w.refresh(at);
                        }
                    }
                }
            }
        }
        m.count("worlds", 1);
        w.s.discard();
    }
}
pub fn short(s: &str) -> String {
    s.chars().take(300).collect()
}
