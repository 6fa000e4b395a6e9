//! Tracking, identifying, refusing and sessions, judged by what the tables and the metadata hold
//! afterwards.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::HashMap;

use chrono::DateTime;
use chrono::Utc;
use common::group_col;
use common::types::*;
use common::GROUPS_COUNT;
use metadata::properties::Property;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Map;
use serde_json::Value as Json;
use storage::Value;

use crate::server::call;
use crate::server::Server;
use crate::server::PLACES;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Str,
    Num,
    Bool,
    Date,
}
const KINDS: [Kind; 4] = [Kind::Str, Kind::Num, Kind::Bool, Kind::Date];

/// A value as the request writes it, and as the row must hold it.
#[derive(Clone, Debug)]
struct Pv {
    json: Json,
    shown: String,
}
fn num(text: &str) -> Json {
    serde_json::from_str(text).unwrap()
}
fn number(r: &mut Rng) -> Pv {
    let scale = r.below(7) as u32;
    let digits = 1 + r.below(if scale == 0 { 12 } else { 11 }) as u32;
    let mut m = r.next() as i128 % 10i128.pow(digits);
    if r.chance(1, 8) {
        m = *r.pick(&[0, 1, 5, 10, 100]);
    }
    let neg = r.chance(1, 3) && m != 0;
    let s = format!("{:0w$}", m, w = scale as usize + 1);
    let (a, b) = s.split_at(s.len() - scale as usize);
    let text = if scale == 0 { a.to_string() } else { format!("{a}.{b}") };
    let text = if neg { format!("-{text}") } else { text };
    let man = m * 10i128.pow(16 - scale) * if neg { -1 } else { 1 };
    Pv { json: num(&text), shown: format!("number {man}") }
}
fn moment(r: &mut Rng) -> (String, i64) {
    let ms = match r.below(12) {
        0 => 0,
        1 => r.range(-2_000_000_000_000, 0),
        2 => r.range(1, 999),
        _ => r.range(1_500_000_000_000, 1_900_000_000_000),
    };
    let t = DateTime::from_timestamp_millis(ms).unwrap();
    let text = match r.below(3) {
        0 => t.to_rfc3339_opts(chrono::SecondsFormat::Millis, true),
        1 => t.to_rfc3339_opts(chrono::SecondsFormat::Micros, true),
        _ => t.with_timezone(&chrono::FixedOffset::east_opt(3600 * r.range(-11, 12) as i32).unwrap()).to_rfc3339(),
    };
    (text, ms)
}
const STRINGS: [&str; 14] =
    ["a", "b", "A", "", " ", "ab", "é", "日本", "10", "true", "x\"y\\z", "2020", "a/b", "a long text, with more than a few words in it"];
fn value(r: &mut Rng, k: Kind) -> Pv {
    match k {
        Kind::Str => {
            let s = if r.chance(1, 3) { format!("s{}", r.below(300)) } else { r.pick(&STRINGS).to_string() };
            Pv { shown: format!("text {s:?}"), json: Json::String(s) }
        }
        Kind::Num => number(r),
        Kind::Bool => {
            let b = r.bool();
            Pv { json: Json::Bool(b), shown: format!("bool {b}") }
        }
        Kind::Date => {
            let (t, ms) = moment(r);
            Pv { json: Json::String(t), shown: format!("time {ms}") }
        }
    }
}

type Facts = BTreeMap<String, String>;

#[derive(Clone, Debug)]
struct Event {
    person: usize,
    facts: Facts,
    /// the moment it was received at, when it names none
    between: Option<(i64, i64)>,
    begins: bool,
    /// what only the session-begin event carries
    session: Facts,
    /// whether properties of the user's own group go with it
    with_groups: bool,
    request: String,
}
#[derive(Clone, Debug, Default)]
struct Rec {
    values: BTreeMap<String, String>,
    identified: Option<(Option<i64>, (i64, i64))>,
    last_version: i64,
}
struct Proj {
    id: u64,
    token: String,
    events: Vec<Event>,
    anon: HashMap<String, usize>,
    real: HashMap<String, usize>,
    names: Vec<BTreeSet<String>>,
    ids: HashMap<usize, i64>,
    open: BTreeSet<usize>,
    kinds: HashMap<(Option<String>, String), Kind>,
    groups: Vec<String>,
    recs: BTreeMap<(String, String), Rec>,
    rec_ids: HashMap<(String, String), i64>,
    ended: usize,
    accepted: usize,
}
pub struct World {
    pub s: Option<Server>,
    projs: Vec<Proj>,
    judge: &'static str,
}
const USERS: [&str; 8] = ["u1", "u2", "é", "u/3", "U1", "10", "u1 ", "É"];
const ANONS: [&str; 6] = ["a1", "a2", "u1", "visitor", "10", " a1"];
const EVENTS: [&str; 10] = ["purchase", "Click", "Page", "view", "View", "a/b", "é", "x y", "view ", "É"];
const PROPS: [&str; 14] =
    ["title", "Title", "price", "count", "flag", "when", "a/b", "é", "Name", "Page Path", "x.y", "10", "price ", "É"];
const GROUPS: [&str; 4] = ["company", "team", "Company", "10"];
const KEYS: [&str; 8] = ["acme", "Acme", "k1", "k/2", "é", "10", " acme", "É"];
const GPROPS: [&str; 5] = ["plan", "title", "seats", "since", "vip"];

fn millis() -> i64 {
    Utc::now().timestamp_millis()
}
fn as_i64(v: &Value) -> Option<i64> {
    match v {
        Value::Int64(Some(v)) => Some(*v),
        _ => None,
    }
}

impl World {
    pub fn new(r: &mut Rng, judge: &'static str, projects: usize) -> World {
        let s = Server::new();
        let org = s.org("org");
        let mut projs = vec![];
        for i in 0..projects {
            let (id, token) = s.project(org, &format!("p{i}"), 3600 + 1000 * r.below(3) as u64);
            projs.push(Proj {
                id,
                token,
                events: vec![],
                anon: HashMap::new(),
                real: HashMap::new(),
                names: vec![],
                ids: HashMap::new(),
                open: BTreeSet::new(),
                kinds: HashMap::from([
                    ((None, "Name".to_string()), Kind::Str),
                    ((None, "Page Path".to_string()), Kind::Str),
                ]),
                groups: vec!["user".to_string()],
                recs: BTreeMap::new(),
                rec_ids: HashMap::new(),
                ended: 0,
                accepted: 0,
            });
        }
        World { s: Some(s), projs, judge }
    }
    fn s(&self) -> &Server {
        self.s.as_ref().unwrap()
    }
    pub fn done(mut self) {
        self.s.take().unwrap().discard();
    }
    fn props(&mut self, r: &mut Rng, p: usize, group: Option<&str>) -> (Map<String, Json>, BTreeMap<String, String>) {
        let (mut js, mut shown) = (Map::new(), BTreeMap::new());
        for _ in 0..r.below(5) {
            let name = if group.is_some() { *r.pick(&GPROPS) } else { *r.pick(&PROPS) };
            let k = r.pick(&KINDS);
            let k = *self.projs[p].kinds.entry((group.map(|g| g.to_string()), name.to_string())).or_insert(*k);
            let v = value(r, k);
            js.insert(name.to_string(), v.json);
            shown.insert(name.to_string(), v.shown);
        }
        (js, shown)
    }
    fn context(&self, r: &mut Rng, props: &mut Facts, session: &mut Facts) -> Json {
        let mut c = Map::new();
        let put = |f: &mut Facts, n: &str, v: &str| {
            f.entry(format!("prop {n}")).or_insert_with(|| format!("text {v:?}"));
        };
        if r.bool() {
            c.insert("library".into(), json!({"name": "lib", "version": "1"}));
        }
        if r.bool() {
            c.insert("page".into(), json!({"path": "/p", "title": "t"}));
        }
        if r.bool() {
            let fam = *r.pick(&["Chrome", "Safari"]);
            let (maj, min) = (r.pick(&["", "1", "12"]).to_string(), r.pick(&["", "0", "3"]).to_string());
            let os = *r.pick(&["MacOS", "Linux"]);
            let ov: Vec<String> = (0..4).map(|_| r.pick(&["", "1", "22"]).to_string()).collect();
            let dev = *r.pick(&["iPhone", "PC"]);
            let (brand, model) = (*r.pick(&["", "Apple", "é"]), *r.pick(&["", "15", "X"]));
            c.insert(
                "userAgent".into(),
                json!(format!("{fam}/{maj}.{min} {os}/{} {dev}/{brand}/{model}", ov.join("."))),
            );
            put(props, EVENT_PROPERTY_CLIENT_FAMILY, fam);
            put(props, EVENT_PROPERTY_DEVICE_FAMILY, dev);
            put(props, EVENT_PROPERTY_OS, os);
            for (n, v) in [
                (EVENT_PROPERTY_CLIENT_VERSION_MAJOR, maj.as_str()),
                (EVENT_PROPERTY_CLIENT_VERSION_MINOR, min.as_str()),
                (EVENT_PROPERTY_DEVICE_BRAND, brand),
                (EVENT_PROPERTY_DEVICE_MODEL, model),
                (EVENT_PROPERTY_OS_VERSION_MAJOR, ov[0].as_str()),
                (EVENT_PROPERTY_OS_VERSION_MINOR, ov[1].as_str()),
                (EVENT_PROPERTY_OS_VERSION_PATCH, ov[2].as_str()),
                (EVENT_PROPERTY_OS_VERSION_PATCH_MINOR, ov[3].as_str()),
            ] {
                if !v.is_empty() {
                    put(props, n, v);
                }
            }
            let known: Vec<&str> = ov.iter().map(|v| v.as_str()).take_while(|v| !v.is_empty()).collect();
            let full = if known.is_empty() { os.to_string() } else { format!("{os} {}", known.join(".")) };
            put(props, EVENT_PROPERTY_OS_FAMILY, &full);
        }
        let ip = if r.bool() {
            let ip = if r.chance(2, 3) { r.pick(&PLACES).0.to_string() } else { format!("10.0.0.{}", r.below(3)) };
            c.insert("ip".into(), json!(ip));
            ip
        } else {
            "127.0.0.1".to_string()
        };
        if let Some((_, country, city)) = PLACES.iter().find(|p| p.0 == ip) {
            if !country.is_empty() {
                put(props, EVENT_PROPERTY_COUNTRY, country);
            }
            if !city.is_empty() {
                put(props, EVENT_PROPERTY_CITY, city);
            }
        }
        session.insert("ip".into(), ip);
        if r.chance(1, 3) {
            let mut cm = Map::new();
            let v = format!("src{}", r.below(5));
            put(session, EVENT_PROPERTY_UTM_SOURCE, &v);
            cm.insert("source".into(), json!(v));
            for (k, n) in [
                ("medium", EVENT_PROPERTY_UTM_MEDIUM),
                ("campaign", EVENT_PROPERTY_UTM_CAMPAIGN),
                ("term", EVENT_PROPERTY_UTM_TERM),
                ("content", EVENT_PROPERTY_UTM_CONTENT),
            ] {
                if r.bool() {
                    let v = format!("{k}{}", r.below(5));
                    put(session, n, &v);
                    cm.insert(k.into(), json!(v));
                }
            }
            c.insert("campaign".into(), Json::Object(cm));
        }
        Json::Object(c)
    }
    /// The person a request names, as the users and visitors known so far make it.
    fn person(&mut self, p: usize, user: Option<&str>, anon: Option<&str>) -> usize {
        let pr = &mut self.projs[p];
        let new = |pr: &mut Proj| {
            pr.names.push(BTreeSet::new());
            pr.names.len() - 1
        };
        let who = match (user, anon) {
            (Some(u), None) => match pr.real.get(u) {
                Some(w) => *w,
                None => new(pr),
            },
            (None, Some(a)) => match pr.anon.get(a) {
                Some(w) => *w,
                None => new(pr),
            },
            (Some(u), Some(a)) => match (pr.real.get(u), pr.anon.get(a)) {
                (Some(w), _) => *w,
                (None, Some(w)) => *w,
                _ => {
                    let w = new(pr);
                    pr.anon.insert(a.to_string(), w);
                    w
                }
            },
            _ => unreachable!(),
        };
        if let Some(u) = user {
            pr.real.insert(u.to_string(), who);
            pr.names[who].insert(u.to_string());
            pr.recs.entry(("user".into(), u.into())).or_default();
        } else if let Some(a) = anon {
            pr.anon.insert(a.to_string(), who);
            pr.names[who].insert(a.to_string());
        }
        who
    }
    fn group(&mut self, p: usize, g: &str) {
        let pr = &mut self.projs[p];
        if !pr.groups.iter().any(|x| x == g) {
            pr.groups.push(g.to_string());
        }
    }
    fn track_request(&mut self, r: &mut Rng, p: usize, kinds_of_names: usize) -> (Json, Event) {
        let mut body = Map::new();
        let (user, anon) = match r.below(kinds_of_names) {
            0 | 1 => (Some(*r.pick(&USERS)), None),
            2 | 3 => (None, Some(*r.pick(&ANONS))),
            _ => (Some(*r.pick(&USERS)), Some(*r.pick(&ANONS))),
        };
        // two users who came as the same visitor share a record: which of them it is of is not judged
        let (pr, mut anon) = (&self.projs[p], anon);
        if let (Some(u), Some(a), "I02") = (user, anon, self.judge) {
            let taken = pr.anon.get(a).is_some_and(|w| pr.real.values().any(|x| x == w));
            if !pr.real.contains_key(u) && taken {
                anon = None;
            }
        }
        if let Some(u) = user {
            body.insert("userId".into(), json!(u));
        }
        if let Some(a) = anon {
            body.insert("anonymousId".into(), json!(a));
        }
        let mut facts = Facts::new();
        let name = *r.pick(&EVENTS);
        body.insert("event".into(), json!(name));
        facts.insert("event".into(), name.to_string());
        let ts = if r.chance(4, 5) {
            let (t, ms) = moment(r);
            body.insert("timestamp".into(), json!(t));
            facts.insert("at".into(), ms.to_string());
            true
        } else {
            false
        };
        if r.chance(5, 6) {
            let (js, shown) = self.props(r, p, None);
            body.insert("properties".into(), Json::Object(js));
            for (n, v) in shown {
                facts.insert(format!("prop {n}"), v);
            }
        }
        let mut session = Facts::new();
        let ctx = self.context(r, &mut facts, &mut session);
        body.insert("context".into(), ctx);
        let person = self.person(p, user, anon);
        let with_groups = r.chance(1, 2);
        if with_groups {
            let mut gs = Map::new();
            let mut recs: Vec<(String, String)> = vec![];
            if let Some(u) = user {
                recs.push(("user".into(), u.into()));
            }
            let all = r.chance(1, 6);
            for g in GROUPS {
                if all || r.chance(1, 3) {
                    let k = *r.pick(&KEYS);
                    gs.insert(g.into(), json!(k));
                    self.group(p, g);
                    facts.insert(format!("group {g}"), k.to_string());
                    recs.push((g.into(), k.into()));
                }
            }
            body.insert("groups".into(), Json::Object(gs));
            for rec in recs {
                let e = self.projs[p].recs.entry(rec.clone()).or_default();
                for (n, v) in &e.values {
                    facts.insert(format!("{} property {n}", rec.0), v.clone());
                }
            }
        }
        let begins = self.projs[p].open.insert(person);
        let body = Json::Object(body);
        let between = if ts { None } else { Some((0, 0)) };
        let e = Event { person, facts, between, begins, session, with_groups, request: body.to_string() };
        (body, e)
    }
    fn track(&mut self, m: &mut Mon, r: &mut Rng, p: usize) {
        let (body, mut e) = self.track_request(r, p, 5);
        let before = millis();
        let path = format!("/api/v1/ingest/{}/track", self.projs[p].token);
        let resp = self.s().call("POST", &path, &[], &body.to_string());
        if e.between.is_some() {
            e.between = Some((before, millis()));
        }
        m.count("events sent", 1);
        m.observed(("track", e.facts.keys().collect::<Vec<_>>(), e.begins, e.with_groups), true);
        self.projs[p].accepted += 1;
        match resp {
            Ok(x) if x.status == 201 => {}
            x => m.violation("track refused", format!("{}: a well-formed event is answered {x:?}", self.judge), json!({"request": body})),
        }
        self.projs[p].events.push(e);
    }
    fn identify(&mut self, m: &mut Mon, r: &mut Rng, p: usize) {
        let group = if r.chance(1, 3) { "user" } else { *r.pick(&GROUPS) };
        let key = if group == "user" { *r.pick(&USERS) } else { *r.pick(&KEYS) };
        let mut body = Map::new();
        body.insert("group".into(), json!(group));
        body.insert("id".into(), json!(key));
        let ts = if r.chance(3, 4) {
            let (t, ms) = moment(r);
            body.insert("timestamp".into(), json!(t));
            Some(ms)
        } else {
            None
        };
        let ctx = self.context(r, &mut Facts::new(), &mut Facts::new());
        body.insert("context".into(), ctx);
        let mut shown = BTreeMap::new();
        if r.chance(5, 6) {
            let (js, s) = self.props(r, p, Some(group));
            body.insert("properties".into(), Json::Object(js));
            shown = s;
        }
        self.group(p, group);
        if group == "user" {
            self.person(p, Some(key), None);
        }
        let body = Json::Object(body);
        let before = millis();
        let path = format!("/api/v1/ingest/{}/identify", self.projs[p].token);
        let resp = self.s().call("POST", &path, &[], &body.to_string());
        m.count("records identified", 1);
        m.observed(("identify", group, key, shown.keys().collect::<Vec<_>>()), true);
        match resp {
            Ok(x) if x.status == 204 => {}
            x => m.violation("identify refused", format!("{}: a well-formed record is answered {x:?}", self.judge), json!({"request": body})),
        }
        let rec = self.projs[p].recs.entry((group.into(), key.into())).or_default();
        rec.values.append(&mut shown);
        rec.identified = Some((ts, (before, millis())));
    }

    // ---- reading back

    fn shown(&self, p: &Property, tbl: &str, v: &Value) -> Result<String, String> {
        let dict = |id: i64| -> Result<String, String> {
            let s = self
                .s()
                .md
                .dictionaries
                .get_value(p.project_id, tbl, p.column_name().as_str(), id as u64)
                .map_err(|e| format!("the code {id} in column {} of {} has no text: {e:?}", p.column_name(), p.name))?;
            Ok(format!("text {s:?}"))
        };
        if p.is_dictionary {
            return match v {
                Value::Int64(Some(v)) => dict(*v),
                Value::Int32(Some(v)) => dict(*v as i64),
                Value::Int16(Some(v)) => dict(*v as i64),
                Value::Int8(Some(v)) => dict(*v as i64),
                v => Err(format!("property {} holds {v:?} for a code", p.name)),
            };
        }
        Ok(match v {
            Value::String(Some(s)) => format!("text {s:?}"),
            Value::Decimal(Some(d)) => format!("number {d}"),
            Value::Boolean(Some(b)) => format!("bool {b}"),
            Value::Timestamp(Some(t)) => format!("time {t}"),
            v => format!("{v:?}"),
        })
    }
    /// The stored events of every project in the order of their ids.
    fn stored(&mut self) -> Result<Vec<Vec<(i64, i64, Facts)>>, String> {
        let rows = self.s().rows(TABLE_EVENTS)?;
        let mut out: Vec<Vec<(i64, i64, Facts)>> = self.projs.iter().map(|_| vec![]).collect();
        for (pi, pr) in self.projs.iter().enumerate() {
            let md = &self.s().md;
            let mut cols: HashMap<String, (String, Property, String)> = HashMap::new();
            for p in md.event_properties.list(pr.id).map_err(|e| format!("{e:?}"))?.data {
                if !p.is_system {
                    cols.insert(p.column_name(), (format!("prop {}", p.name), p.clone(), TABLE_EVENTS.to_string()));
                }
            }
            let groups = md.groups.list_groups(pr.id).map_err(|e| format!("{e:?}"))?.data;
            let mut gnames: HashMap<usize, String> = HashMap::new();
            for g in &groups {
                gnames.insert(g.id as usize, g.name.clone());
                for p in md.group_properties[g.id as usize].list(pr.id).map_err(|e| format!("{e:?}"))?.data {
                    if !p.is_system {
                        cols.insert(p.column_name(), (format!("{} property {}", g.name, p.name), p.clone(), group_col(g.id as usize)));
                    }
                }
            }
            for row in rows.iter().filter(|r| r.get(COLUMN_PROJECT_ID).and_then(as_i64) == Some(pr.id as i64)) {
                let mut f = Facts::new();
                let (mut id, mut user) = (None, None);
                for (c, v) in row {
                    match c.as_str() {
                        COLUMN_PROJECT_ID => {}
                        COLUMN_EVENT_ID => id = as_i64(v),
                        COLUMN_IP => {
                            if let Value::String(Some(s)) = v {
                                f.insert("ip".into(), s.clone());
                            }
                        }
                        COLUMN_CREATED_AT => match v {
                            Value::Timestamp(Some(t)) => {
                                f.insert("at".into(), t.to_string());
                            }
                            v => return Err(format!("the moment of an event is {v:?}")),
                        },
                        COLUMN_EVENT => {
                            let k = as_i64(v).ok_or("the event of a row is not a code")? as u64;
                            let n = md.events.get_by_id(pr.id, k).map_err(|e| format!("event {k} of a row: {e:?}"))?.name;
                            let d = md
                                .dictionaries
                                .get_value(pr.id, TABLE_EVENTS, COLUMN_EVENT, k)
                                .map_err(|e| format!("event {k} of a row has no text: {e:?}"))?;
                            if d != n {
                                return Err(format!("event {k} is called {n:?} by the events, {d:?} by the texts queries show"));
                            }
                            f.insert("event".into(), n);
                        }
                        c if c == group_col(0) => user = as_i64(v),
                        c if (1..GROUPS_COUNT).any(|g| c == group_col(g)) => {
                            let g = (1..GROUPS_COUNT).find(|g| c == group_col(*g)).unwrap();
                            let id = as_i64(v).ok_or("the group of a row is not a code")?;
                            let key = md
                                .dictionaries
                                .get_value(pr.id, TABLE_EVENTS, c, id as u64)
                                .map_err(|e| format!("record {id} of group {g} has no text: {e:?}"))?;
                            let gn = gnames.get(&g).cloned().unwrap_or(format!("#{g}"));
                            f.insert(format!("group {gn}"), key);
                        }
                        c => match cols.get(c) {
                            Some((n, p, tbl)) => {
                                f.insert(n.clone(), self.shown(p, tbl, v)?);
                            }
                            None => {
                                f.insert(format!("column {c}"), format!("{v:?}"));
                            }
                        },
                    }
                }
                let id = id.ok_or("a row has no id")?;
                let user = user.ok_or("a row has no user")?;
                out[pi].push((id, user, f));
            }
            out[pi].sort_by_key(|x| x.0);
            if let Some(w) = out[pi].windows(2).find(|w| w[0].0 == w[1].0) {
                return Err(format!("two events have the id {}: {:?} and {:?}", w[0].0, w[0].2, w[1].2));
            }
        }
        let known: usize = out.iter().map(|v| v.len()).sum();
        if known != rows.len() {
            return Err(format!("{} rows belong to no project", rows.len() - known));
        }
        Ok(out)
    }
    fn who(&mut self, p: usize, person: usize, id: i64) -> Result<(), String> {
        let s = self.s.as_ref().unwrap();
        let pr = &mut self.projs[p];
        if let Some(other) = pr.ids.iter().find(|(w, i)| **i == id && **w != person) {
            return Err(format!("the user {:?} is stored as the user {:?}", pr.names[person], pr.names[*other.0]));
        }
        let first = *pr.ids.entry(person).or_insert(id);
        if first != id {
            return Err(format!("the user {:?} is stored as {id}, before as {first}", pr.names[person]));
        }
        let text = s
            .md
            .dictionaries
            .get_value(pr.id, TABLE_EVENTS, group_col(0).as_str(), id as u64)
            .map_err(|e| format!("the user {:?} has no text: {e:?}", pr.names[person]))?;
        if !pr.names[person].contains(&text) {
            return Err(format!("the user {:?} is shown as {text:?}", pr.names[person]));
        }
        Ok(())
    }
    fn same(e: &Event, want: &Facts, got: &Facts) -> Result<(), String> {
        let mut got = got.clone();
        let mut want = want.clone();
        if !e.with_groups {
            got.retain(|k, _| !k.starts_with("user property "));
            want.retain(|k, _| !k.starts_with("user property "));
        }
        if let Some((lo, hi)) = e.between {
            match got.remove("at").and_then(|t| t.parse::<i64>().ok()) {
                Some(t) if t >= lo && t <= hi => {}
                t => return Err(format!("received between {lo} and {hi}, stored at {t:?}")),
            }
        }
        for (k, v) in &want {
            match got.remove(k) {
                Some(g) if g == *v => {}
                g => return Err(format!("{k} is {v}, stored as {g:?}")),
            }
        }
        if !got.is_empty() {
            return Err(format!("not sent, but stored: {got:?}"));
        }
        Ok(())
    }
    /// What is stored is what was sent, event by event.
    fn check_events(&mut self, m: &mut Mon) {
        let stored = match self.stored() {
            Ok(s) => s,
            Err(e) => return m.violation("events unreadable", format!("{}: {e}", self.judge), json!({})),
        };
        for p in 0..self.projs.len() {
            let mut rows = stored[p].clone();
            let ends = rows.iter().filter(|r| r.2["event"] == EVENT_SESSION_END).count();
            if self.judge == "I04" {
                m.check(ends == self.projs[p].ended, "session ends", || {
                    format!("I04: {} sessions ended, {ends} session-end events", self.projs[p].ended)
                });
            }
            rows.retain(|r| r.2["event"] != EVENT_SESSION_END);
            let events = self.projs[p].events.clone();
            if self.judge == "I01" {
                // a session-begin event says what the event it begins with says, and where it came from
                let (mut i, mut begins) = (0, None);
                for (_, user, f) in &rows {
                    if f["event"] == EVENT_SESSION_BEGIN {
                        begins = Some((*user, f));
                        continue;
                    }
                    if let (Some((user, f)), Some(e)) = (begins.take(), events.get(i)) {
                        let mut want = e.facts.clone();
                        want.insert("event".into(), EVENT_SESSION_BEGIN.into());
                        want.extend(e.session.clone());
                        m.count("session begins compared", 1);
                        if let Err(x) = self.who(p, e.person, user).and_then(|_| Self::same(e, &want, f)) {
                            return m.violation("session begin", format!("I01: {x}"), json!({"request": e.request, "stored": f}));
                        }
                    }
                    i += 1;
                }
                rows.retain(|r| r.2["event"] != EVENT_SESSION_BEGIN);
                if rows.len() != events.len() {
                    return m.violation("events lost", format!("I01: {} events accepted, {} stored", events.len(), rows.len()), json!({}));
                }
                for (e, (_, user, f)) in events.iter().zip(&rows) {
                    m.count("events compared", 1);
                    m.count("values compared", f.len() as u64);
                    if let Err(x) = self.who(p, e.person, *user).and_then(|_| Self::same(e, &e.facts, f)) {
                        return m.violation("event", format!("I01: {x}"), json!({"request": e.request, "stored": f}));
                    }
                }
            }
            if self.judge == "I04" {
                let mut i = 0;
                for e in &events {
                    if e.begins {
                        let mut want = e.facts.clone();
                        want.insert("event".into(), EVENT_SESSION_BEGIN.into());
                        for (k, v) in &e.session {
                            want.insert(k.clone(), v.clone());
                        }
                        let ok = match rows.get(i) {
                            Some((_, user, f)) => self.who(p, e.person, *user).and_then(|_| Self::same(e, &want, f)),
                            None => Err("nothing is stored".to_string()),
                        };
                        if let Err(x) = ok {
                            return m.violation(
                                "session begin",
                                format!("I04: no session-begin event before the first event of a session: {x}"),
                                json!({"request": e.request, "stored": rows.get(i).map(|r| &r.2)}),
                            );
                        }
                        m.count("session begins compared", 1);
                        i += 1;
                    } else {
                        m.count("events within a session", 1);
                    }
                    match rows.get(i) {
                        Some((_, user, f)) if f["event"] == e.facts["event"] && self.who(p, e.person, *user).is_ok() => {}
                        x => {
                            return m.violation(
                                "session begin twice",
                                format!("I04: where an event of a session under way belongs, {:?} is stored", x.map(|r| &r.2)),
                                json!({"request": e.request}),
                            )
                        }
                    }
                    i += 1;
                }
                if i != rows.len() {
                    return m.violation("session begin twice", format!("I04: {} events stored beyond those sent", rows.len() - i), json!({}));
                }
            }
            if self.judge == "I01" {
                let n = self.s().md.projects.get_by_id(self.projs[p].id).map(|p| p.events_count).unwrap_or(0);
                let want = self.projs[p].accepted;
                // events are known with the properties they came with
                let pid = self.projs[p].id;
                let mut came: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
                for e in &events {
                    let body: Json = serde_json::from_str(&e.request).unwrap_or_default();
                    came.entry(e.facts["event"].clone())
                        .or_default()
                        .extend(body["properties"].as_object().into_iter().flatten().map(|x| x.0.clone()));
                }
                let md = &self.s().md;
                for (name, props) in came {
                    let known = md.events.get_by_name(pid, &name).ok().and_then(|e| e.event_properties).unwrap_or_default();
                    for prop in props {
                        let id = md.event_properties.get_by_name(pid, &prop).map(|x| x.id).unwrap_or(0);
                        m.count("properties of events looked up", 1);
                        m.check(known.contains(&id), "property of an event", || {
                            format!("I01: {name:?} came with {prop:?}, but is known with other properties only")
                        });
                    }
                }
                m.check(n == want, "events counter", || format!("I01: {want} events accepted, the project counts {n}"));
            }
        }
    }
    fn check_groups(&mut self, m: &mut Mon) {
        for g in 0..GROUPS_COUNT {
            let rows = match self.s().rows(&group_col(g)) {
                Ok(r) => r,
                Err(e) => return m.violation("records unreadable", format!("I02: {e}"), json!({})),
            };
            let mut seen = 0;
            for p in 0..self.projs.len() {
                let id = self.projs[p].id;
                let md = self.s().md.clone();
                let list = md.groups.list_groups(id).unwrap().data;
                let name = match list.iter().find(|x| x.id as usize == g) {
                    Some(x) => x.name.clone(),
                    None => continue,
                };
                if !self.projs[p].groups.contains(&name) {
                    return m.violation("group unknown", format!("I02: a group {name:?} appeared"), json!({}));
                }
                let mine: Vec<_> = rows.iter().filter(|r| r.get("project_id").and_then(as_i64) == Some(id as i64)).collect();
                seen += mine.len();
                let props = md.group_properties[g].list(id).unwrap().data;
                let recs: Vec<(String, Rec)> = self.projs[p]
                    .recs
                    .iter()
                    .filter(|((gn, _), r)| *gn == name && r.identified.is_some())
                    .map(|((_, k), r)| (k.clone(), r.clone()))
                    .collect();
                if mine.len() != recs.len() {
                    let ids: Vec<_> = mine.iter().map(|r| r.get("id")).collect();
                    return m.violation(
                        "records lost",
                        format!("I02: {} records of group {name:?} identified, {} stored: {ids:?}", recs.len(), mine.len()),
                        json!({"project": p, "records": recs.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "real": self.projs[p].real, "anon": self.projs[p].anon,
                            "stored": mine.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()}),
                    );
                }
                let mut met = BTreeSet::new();
                for row in mine {
                    let rid = row.get("id").and_then(as_i64).unwrap_or(-1);
                    let key = match md.dictionaries.get_value(id, &group_col(g), "id", rid as u64) {
                        Ok(k) => k,
                        Err(e) => return m.violation("record name", format!("I02: record {rid} of {name:?} has no name: {e:?}"), json!({})),
                    };
                    let Some((_, rec)) = recs.iter().find(|(k, _)| *k == key) else {
                        return m.violation("record unknown", format!("I02: record {key:?} of {name:?} was never identified"), json!({}));
                    };
                    if !met.insert(key.clone()) {
                        return m.violation("record twice", format!("I02: record {key:?} of {name:?} is stored twice"), json!({}));
                    }
                    if g == 0 {
                        let w = self.projs[p].real[&key];
                        if let Some(x) = self.projs[p].ids.get(&w) {
                            if *x != rid {
                                return m.violation("record id", format!("I02: user {key:?} is {x} in events, {rid} as a record"), json!({}));
                            }
                        }
                    }
                    let first = *self.projs[p].rec_ids.entry((name.clone(), key.clone())).or_insert(rid);
                    if first != rid {
                        return m.violation("record id", format!("I02: record {key:?} of {name:?} is {rid}, was {first}"), json!({}));
                    }
                    // events that name the record have its id
                    if let Ok(k) = md.dictionaries.get_key(id, TABLE_EVENTS, &group_col(g), &key) {
                        if g > 0 && k as i64 != rid {
                            return m.violation("record id", format!("I02: record {key:?} of {name:?} is {k} in events, {rid} as a record"), json!({}));
                        }
                        m.count("records also named by events", 1);
                    }
                    let at = match row.get("created_at") {
                        Some(Value::Timestamp(Some(t))) => *t,
                        x => return m.violation("record time", format!("I02: record {key:?} has the time {x:?}"), json!({})),
                    };
                    let (ts, (lo, hi)) = rec.identified.unwrap();
                    let good = match ts {
                        Some(t) => t == at,
                        None => at >= lo && at <= hi,
                    };
                    if !good {
                        return m.violation("record time", format!("I02: record {key:?} was sent at {ts:?} ({lo}..{hi}), has {at}"), json!({}));
                    }
                    let mut got: BTreeMap<String, String> = BTreeMap::new();
                    for (c, v) in row {
                        if ["project_id", "id", "version", "created_at"].contains(&c.as_str()) {
                            continue;
                        }
                        match props.iter().find(|p| p.column_name() == *c) {
                            Some(pr) => match self.shown(pr, &group_col(g), v) {
                                Ok(s) => {
                                    got.insert(pr.name.clone(), s);
                                }
                                Err(e) => return m.violation("record value", format!("I02: {e}"), json!({})),
                            },
                            None => return m.violation("record column", format!("I02: column {c} holds {v:?}, no property has it"), json!({})),
                        }
                    }
                    if got != rec.values {
                        return m.violation(
                            "record values",
                            format!("I02: record {key:?} of {name:?} was last sent {:?}, holds {got:?}", rec.values),
                            json!({}),
                        );
                    }
                    let v = row.get("version").and_then(as_i64).unwrap_or(-1);
                    if v < rec.last_version {
                        return m.violation("record version", format!("I02: version {v} after {}", rec.last_version), json!({}));
                    }
                    self.projs[p].recs.get_mut(&(name.clone(), key.clone())).unwrap().last_version = v;
                    m.count("records compared", 1);
                    m.count("values of records compared", got.len() as u64);
                }
            }
            if seen != rows.len() {
                return m.violation("records elsewhere", format!("I02: {} records of group {g} belong to no project", rows.len() - seen), json!({}));
            }
        }
    }
    fn judge(&mut self, m: &mut Mon) {
        match self.judge {
            "I02" => self.check_groups(m),
            _ => self.check_events(m),
        }
    }
    fn restart(&mut self, m: &mut Mon) {
        let s = self.s.take().unwrap();
        self.s = Some(s.restart());
        m.count("restarts", 1);
    }
}

/// Events and records in turn, read back now and then.
pub fn sequences(m: &mut Mon, r: &mut Rng, judge: &'static str, worlds: usize, secs: (u64, u64)) {
    let n = m.n(worlds, worlds * 100);
    for i in 0..n {
        if m.violated() || !m.within(secs.0, secs.1) {
            break;
        }
        let projects = 1 + r.below(2);
        let mut w = World::new(r, judge, projects);
        let tracks = if judge == "I02" { 1 } else { 3 };
        for _ in 0..3 + r.below(4) {
            for _ in 0..4 + r.below(14) {
                let p = r.below(projects);
                if r.below(4) < tracks {
                    w.track(m, r, p);
                } else {
                    w.identify(m, r, p);
                }
            }
            if r.chance(1, 4) {
                let _ = w.s().db.flush(TABLE_EVENTS);
                m.count("flushes", 1);
            }
            if i % 3 == 0 && r.chance(1, 4) {
                w.restart(m);
            }
            w.judge(m);
            if m.violated() {
                break;
            }
        }
        m.count("worlds", 1);
        w.done();
    }
}

fn settle() {
    std::thread::sleep(std::time::Duration::from_millis(2));
}

/// Sessions, with the cleaner running as the program runs it.
pub fn sessions(m: &mut Mon, r: &mut Rng, worlds: usize, secs: (u64, u64)) {
    let n = m.n(worlds, worlds * 40);
    for _ in 0..n {
        if m.violated() || !m.within(secs.0, secs.1) {
            break;
        }
        let projects = 1 + r.below(2);
        let mut w = World::new(r, "I04", projects);
        let s = w.s();
        cmd::init_session_cleaner(s.md.clone(), s.db.clone(), s.cfg.clone()).unwrap_or_else(|e| panic!("{e:?}"));
        let mut ends: Vec<(usize, i64, (i64, i64), i64)> = vec![];
        for _ in 0..3 + r.below(4) {
            for _ in 0..3 + r.below(9) {
                let p = r.below(projects);
                if r.chance(5, 6) {
                    w.track(m, r, p);
                } else {
                    w.identify(m, r, p);
                }
            }
            w.judge(m);
            if m.violated() {
                break;
            }
            // some of the users were last seen some time ago
            let (mut aged, mut kept) = (vec![], vec![]);
            for p in 0..projects {
                let pr = &w.projs[p];
                let d = s_duration(&w, p);
                for who in pr.open.iter() {
                    let Some(id) = pr.ids.get(who) else { continue };
                    if r.chance(1, 3) {
                        let over = r.bool();
                        let age = if over { d + *r.pick(&[0, 1, 60, 100_000]) } else { r.range(0, d - 120) };
                        let before = millis();
                        let seen = Utc::now() - chrono::Duration::seconds(age);
                        let _ = w.s().md.sessions.set_current_time(pr.id, *id as u64, seen);
                        if over {
                            aged.push((p, *who, *id, age, before));
                        } else {
                            kept.push((p, *who, *id));
                        }
                    } else {
                        kept.push((p, *who, *id));
                    }
                }
            }
            let t0 = std::time::Instant::now();
            for (p, who, id, age, before) in &aged {
                let pid = w.projs[*p].id;
                loop {
                    if w.s().md.sessions.get_by_user_id(pid, *id as u64).is_err() {
                        break;
                    }
                    if t0.elapsed().as_secs() > 20 {
                        return m.violation(
                            "session not ended",
                            format!("I04: a session idle for {age} s of a project with sessions of {} s does not end", s_duration(&w, *p)),
                            json!({}),
                        );
                    }
                    settle();
                }
                w.projs[*p].open.remove(who);
                w.projs[*p].ended += 1;
                ends.push((*p, *id, (*before, millis()), *age));
                m.count("sessions ended", 1);
            }
            // the cleaner has been round once more
            std::thread::sleep(std::time::Duration::from_millis(60));
            for (p, who, id) in &kept {
                let pr = &w.projs[*p];
                if w.s().md.sessions.get_by_user_id(pr.id, *id as u64).is_err() {
                    return m.violation(
                        "session ended early",
                        format!("I04: the session of {:?} ended within the session duration of the project", pr.names[*who]),
                        json!({}),
                    );
                }
                m.count("sessions kept open", 1);
            }
            // the end of each session is stored for its user
            let stored = match w.stored() {
                Ok(s) => s,
                Err(e) => return m.violation("events unreadable", format!("I04: {e}"), json!({})),
            };
            for p in 0..projects {
                let mut got: Vec<(i64, i64, Option<i64>)> = stored[p]
                    .iter()
                    .filter(|x| x.2["event"] == EVENT_SESSION_END)
                    .map(|x| {
                        let t = |k: &str| x.2.get(k).map(|t| t.trim_start_matches("time ").parse::<i64>().unwrap_or(-1));
                        (x.1, t("at").unwrap_or(-1), t("prop Session Length"))
                    })
                    .collect();
                for (_, id, (lo, hi), age) in ends.iter().filter(|e| e.0 == p) {
                    let i = got.iter().position(|g| {
                        let len = g.2.unwrap_or(-1);
                        let len = if len > 50_000_000 { len / 1000 } else { len };
                        g.0 == *id && g.1 >= *lo && g.1 <= *hi && len >= *age && len <= *age + (hi - lo) / 1000 + 2
                    });
                    match i {
                        Some(i) => {
                            got.remove(i);
                            m.count("session ends compared", 1);
                        }
                        None => {
                            return m.violation(
                                "session end",
                                format!("I04: no session-end event of user {id} between {lo} and {hi} of a length of {age} s; stored: {got:?}"),
                                json!({}),
                            )
                        }
                    }
                }
                if !got.is_empty() {
                    return m.violation("session end", format!("I04: session-end events of no session that ended: {got:?}"), json!({}));
                }
            }
        }
        m.count("worlds", 1);
        stop_cleaner(&w);
        w.done();
    }
}
fn s_duration(w: &World, p: usize) -> i64 {
    w.s().md.projects.get_by_id(w.projs[p].id).unwrap().session_duration_seconds as i64
}
/// Its thread has no end of its own: it ends when it cannot list the projects.
fn stop_cleaner(w: &World) {
    let me = std::thread::current().id();
    rocksdb::hook::set(Some(Box::new(move |_, _| {
        if std::thread::current().id() != me {
            panic!("harness: end of the cleaner");
        }
        false
    })));
    std::thread::sleep(std::time::Duration::from_millis(2) + w.s().cfg.misc.session_cleaner_interval.to_std().unwrap() * 2);
    rocksdb::hook::set(None);
}

/// Many clients at once.
pub fn concurrent(m: &mut Mon, r: &mut Rng, judge: &'static str, worlds: usize, secs: (u64, u64)) {
    let n = m.n(worlds, worlds * 100);
    for _ in 0..n {
        if m.violated() || !m.within(secs.0, secs.1) {
            break;
        }
        let mut w = World::new(r, judge, 1);
        w.projs[0].kinds.insert((None, "n".to_string()), Kind::Num);
        let threads = 2 + r.below(5);
        let mut work: Vec<Vec<(String, String)>> = vec![vec![]; threads];
        let mut sent = vec![];
        let total = threads * (4 + r.below(10));
        for i in 0..total {
            // which of two names a user is known by first would be up to the schedule
            let (mut body, mut e) = w.track_request(r, 0, 4);
            body["properties"]["n"] = json!(i);
            e.facts.insert("prop n".into(), format!("number {}", i as i128 * 10i128.pow(16)));
            let path = format!("/api/v1/ingest/{}/track", w.projs[0].token);
            work[r.below(threads)].push((path, body.to_string()));
            if e.between.is_some() {
                e.between = Some((millis(), i64::MAX));
            }
            e.request = body.to_string();
            sent.push(e);
        }
        // records are identified meanwhile
        let mut ids = vec![];
        for _ in 0..r.below(8) {
            let g = *r.pick(&GROUPS);
            let body = json!({"group": g, "id": r.pick(&KEYS), "context": {}, "properties": {"plan": "x"}});
            w.group(0, g);
            ids.push((format!("/api/v1/ingest/{}/identify", w.projs[0].token), body.to_string()));
        }
        w.projs[0].kinds.insert((Some("company".into()), "plan".into()), Kind::Str);
        work.push(ids);
        let router = w.s().router.clone();
        let hs: Vec<_> = work
            .into_iter()
            .map(|reqs| {
                let router = router.clone();
                std::thread::spawn(move || reqs.into_iter().map(|(p, b)| (call(&router, "POST", &p, &[], &b), b)).collect::<Vec<_>>())
            })
            .collect();
        for h in hs {
            for (resp, body) in h.join().unwrap() {
                match resp {
                    Ok(x) if x.ok() => {}
                    x => return m.violation("track refused", format!("{judge}: a well-formed request is answered {x:?}"), json!({"request": body})),
                }
            }
        }
        m.count("requests at once", total as u64);
        m.observed((threads, total, sent.iter().map(|e| e.person).collect::<BTreeSet<_>>()), true);
        let stored = match w.stored() {
            Ok(s) => s.into_iter().next().unwrap(),
            Err(e) => return m.violation("events unreadable", format!("{judge}: {e}"), json!({})),
        };
        let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
        let mut begun: BTreeMap<i64, usize> = BTreeMap::new();
        for (_, user, f) in &stored {
            if f["event"] == EVENT_SESSION_BEGIN {
                let b = begun.entry(*user).or_insert(0);
                *b += 1;
                if judge == "I04" && (*b > 1 || seen.contains_key(user)) {
                    return m.violation("session begin twice", format!("I04: a session of user {user} begins while one is open"), json!({"stored": f}));
                }
            } else {
                *seen.entry(*user).or_insert(0) += 1;
            }
        }
        if judge == "I04" {
            for u in seen.keys() {
                m.count("session begins compared", 1);
                m.check(begun.contains_key(u), "session begin", || format!("I04: the events of user {u} begin no session"));
            }
        }
        if judge == "I01" {
            let mut by: BTreeMap<String, Vec<&(i64, i64, Facts)>> = BTreeMap::new();
            for x in stored.iter().filter(|x| x.2["event"] != EVENT_SESSION_BEGIN) {
                by.entry(x.2.get("prop n").cloned().unwrap_or_default()).or_default().push(x);
            }
            for e in &sent {
                let of = by.remove(&e.facts["prop n"]).unwrap_or_default();
                if of.len() != 1 {
                    return m.violation("events lost", format!("I01: an event was stored {} times", of.len()), json!({"request": e.request}));
                }
                let mut want = e.facts.clone();
                let mut got = of[0].2.clone();
                want.retain(|k, _| !k.contains(" property "));
                got.retain(|k, _| !k.contains(" property "));
                m.count("events compared", 1);
                if let Err(x) = w.who(0, e.person, of[0].1).and_then(|_| World::same(e, &want, &got)) {
                    return m.violation("event", format!("I01: sent among others at once: {x}"), json!({"request": e.request, "stored": got}));
                }
            }
            if let Some((k, _)) = by.iter().next() {
                return m.violation("events lost", format!("I01: an event nobody sent is stored: {k}"), json!({}));
            }
            let n = w.s().md.projects.get_by_id(w.projs[0].id).map(|p| p.events_count).unwrap_or(0);
            m.check(n == total, "events counter", || format!("I01: {total} events accepted at once, the project counts {n}"));
        }
        m.count("worlds", 1);
        w.done();
    }
}

type Tables = Vec<Vec<BTreeMap<String, Value>>>;
impl World {
    fn tables(&self) -> Result<Tables, String> {
        let mut out = vec![self.s().rows(TABLE_EVENTS)?];
        for g in 0..GROUPS_COUNT {
            out.push(self.s().rows(&group_col(g))?);
        }
        Ok(out)
    }
    fn sessions(&self) -> Vec<Vec<u8>> {
        self.s().kv.dump().into_keys().filter(|k| String::from_utf8_lossy(k).contains("/sessions/")).collect()
    }
    /// A request that must be refused; `whole` when it may leave no trace at all.
    fn refused(&mut self, m: &mut Mon, path: &str, body: &str, whole: bool, why: &str) {
        let (t0, d0, s0) = (self.tables(), self.s().kv.dump(), self.sessions());
        let n0: Vec<_> = self.projs.iter().map(|p| self.s().md.projects.get_by_id(p.id).map(|p| p.events_count).ok()).collect();
        let resp = self.s().call("POST", path, &[], body);
        m.count("requests refused", 1);
        m.count(why, 1);
        m.observed((why.to_string(), body.len()), true);
        let say = |what: String| format!("I03: {why}: {what}");
        match &resp {
            Ok(x) if x.status / 100 == 4 => {}
            x => {
                return m.violation(&format!("accepted: {why}"), say(format!("answered {x:?}")), json!({"path": path, "request": body}));
            }
        }
        let t1 = self.tables();
        if t0 != t1 {
            return m.violation(&format!("stored: {why}"), say("rows were stored".into()), json!({"path": path, "request": body}));
        }
        if self.sessions() != s0 {
            return m.violation(&format!("session: {why}"), say("a session began".into()), json!({"path": path, "request": body}));
        }
        let n1: Vec<_> = self.projs.iter().map(|p| self.s().md.projects.get_by_id(p.id).map(|p| p.events_count).ok()).collect();
        if n0 != n1 {
            return m.violation(&format!("counted: {why}"), say("the event is counted".into()), json!({"path": path, "request": body}));
        }
        let d1 = self.s().kv.dump();
        if whole && d0 != d1 {
            let new: Vec<String> = d1
                .iter()
                .filter(|(k, v)| d0.get(*k) != Some(*v))
                .map(|(k, _)| String::from_utf8_lossy(k).to_string())
                .take(4)
                .collect();
            m.violation(&format!("trace: {why}"), say(format!("metadata changed: {new:?}")), json!({"path": path, "request": body}));
        }
    }
}
fn malformed(r: &mut Rng, good: &Json, need: &[&str]) -> (String, &'static str) {
    let mut b = good.clone();
    let text = good.to_string();
    match r.below(9) {
        0 => {
            let k = *r.pick(need);
            b.as_object_mut().unwrap().remove(k);
            (b.to_string(), "a required field is missing")
        }
        1 => {
            let mut n = r.below(text.len());
            while !text.is_char_boundary(n) {
                n -= 1;
            }
            (text[..n].to_string(), "truncated JSON")
        }
        2 => {
            let k = *r.pick(need);
            b[k] = r.pick(&[json!(1), json!(true), Json::Null, json!([])]).clone();
            (b.to_string(), "a required field has another type")
        }
        3 => {
            let v = r.pick(&[Json::Null, json!([1]), json!({"a": 1}), json!([])]).clone();
            if !b["properties"].is_object() {
                b["properties"] = json!({});
            }
            b["properties"]["broken"] = v;
            (b.to_string(), "a property that is no scalar")
        }
        4 => {
            b["timestamp"] = r.pick(&[json!("yesterday"), json!(5), json!("2020-13-01T00:00:00Z"), json!("")]).clone();
            (b.to_string(), "a timestamp that is none")
        }
        5 => {
            if !b["context"].is_object() {
                b["context"] = json!({});
            }
            b["context"]["ip"] = r.pick(&[json!("1.2.3"), json!("x"), json!(7)]).clone();
            (b.to_string(), "an address that is none")
        }
        6 => {
            b["properties"] = json!(["a"]);
            (b.to_string(), "properties that are no object")
        }
        7 => (text + "}", "trailing characters"),
        _ => (r.pick(&["", "null", "[]", "1", "\"x\"", "{}", "\u{0}"]).to_string(), "no object"),
    }
}
pub fn refusals(m: &mut Mon, r: &mut Rng, worlds: usize, secs: (u64, u64)) {
    let n = m.n(worlds, worlds * 100);
    for _ in 0..n {
        if m.violated() || !m.within(secs.0, secs.1) {
            break;
        }
        let mut w = World::new(r, "I03", 2);
        let (admin, org) = (w.s().admin(), 1);
        // a property of every narrow type
        for (t, bits) in [(DType::Int8, 8), (DType::Int16, 16), (DType::Int32, 32), (DType::Int64, 64)] {
            for p in 0..2 {
                let id = w.projs[p].id;
                metadata::util::create_property(&w.s().md, id, metadata::util::CreatePropertyMainRequest {
                    name: format!("int{bits}"),
                    display_name: None,
                    typ: metadata::properties::Type::Event,
                    data_type: t.clone(),
                    nullable: true,
                    hidden: false,
                    dict: None,
                    is_system: false,
                })
                .unwrap();
            }
        }
        for _ in 0..25 {
            if m.violated() {
                break;
            }
            let p = r.below(2);
            for _ in 0..r.below(4) {
                if r.chance(3, 4) {
                    w.track(m, r, p);
                } else {
                    w.identify(m, r, p);
                }
            }
            let token = w.projs[p].token.clone();
            let (user, props) = (*r.pick(&["u1", "nobody yet"]), Map::new());
            let good_t = json!({"userId": user, "event": r.pick(&["view", "an event nobody sent"]), "context": {}, "properties": props});
            let good_i = json!({"group": r.pick(&["user", "company", "a group nobody sent"]), "id": user, "context": {}, "properties": {"plan of nobody": 1}});
            let track = format!("/api/v1/ingest/{token}/track");
            let identify = format!("/api/v1/ingest/{token}/identify");
            match r.below(10) {
                0 | 1 => {
                    let (b, why) = malformed(r, &good_t, &["event", "context"]);
                    w.refused(m, &track, &b, true, why);
                }
                2 => {
                    let (b, why) = malformed(r, &good_i, &["group", "id", "context"]);
                    w.refused(m, &identify, &b, true, why);
                }
                3 => {
                    let mut b = good_t.clone();
                    b.as_object_mut().unwrap().remove("userId");
                    b["properties"] = json!({"property of nobody": "x"});
                    w.refused(m, &track, &b.to_string(), true, "neither a user nor a visitor");
                }
                4 => {
                    let t = match r.below(5) {
                        0 => format!("{token}x"),
                        1 => token[..token.len() - 1].to_string(),
                        2 => "unknown".to_string(),
                        3 => "x".repeat(64),
                        _ => "%20".to_string(),
                    };
                    let (b, kind) = if r.bool() { (&good_t, "track") } else { (&good_i, "identify") };
                    let mut b = b.clone();
                    b["properties"] = json!({"property of nobody": "x"});
                    w.refused(m, &format!("/api/v1/ingest/{t}/{kind}"), &b.to_string(), true, "an unknown token");
                }
                5 => {
                    // a project that is gone, or has another token now
                    let (id, old) = w.s().project(org, &format!("gone{}", r.below(1 << 30)), 100);
                    let renewed = r.bool();
                    let resp = if renewed {
                        w.s().api(admin, org, "PUT", &format!("/api/v1/projects/{id}"), &json!({"token": format!("renewed{id}")}))
                    } else {
                        w.s().api(admin, org, "DELETE", &format!("/api/v1/projects/{id}"), &Json::Null)
                    };
                    if !resp.as_ref().map(|x| x.ok()).unwrap_or(false) {
                        return m.violation("project", format!("I03: the project could not be changed: {resp:?}"), json!({}));
                    }
                    w.refused(m, &format!("/api/v1/ingest/{old}/track"), &good_t.to_string(), true, if renewed { "a token replaced" } else { "the token of a deleted project" });
                    if renewed {
                        let resp = w.s().call("POST", &format!("/api/v1/ingest/renewed{id}/track"), &[], &good_t.to_string());
                        m.check(resp.as_ref().map(|x| x.status) == Ok(201), "renewed token", || format!("I03: the new token is refused: {resp:?}"));
                        // keep it out of the comparisons that follow
                        let _ = w.s().api(admin, org, "DELETE", &format!("/api/v1/projects/{id}"), &Json::Null);
                    }
                }
                6 => {
                    // a property that has had values of another kind
                    let known: Vec<_> =
                        w.projs[p].kinds.iter().filter(|k| k.0 .0.is_none()).map(|(k, v)| (k.1.clone(), *v)).collect();
                    let (name, kind) = r.pick(&known).clone();
                    let reg = w.s().md.event_properties.get_by_name(w.projs[p].id, &name).is_ok();
                    if !reg {
                        continue;
                    }
                    let other = *r.pick(&KINDS);
                    if other == kind {
                        continue;
                    }
                    let mut b = good_t.clone();
                    b["properties"] = json!({ name: value(r, other).json });
                    w.refused(m, &track, &b.to_string(), false, "a value of another kind");
                }
                7 => {
                    let (name, v): (&str, Json) = r
                        .pick(&[
                            ("int8", json!(128)),
                            ("int8", json!(-129)),
                            ("int16", json!(32768)),
                            ("int16", json!(-40000)),
                            ("int32", json!(2147483648u64)),
                            ("int64", json!(9223372036854775808u64)),
                            ("amount", json!(10_000_000_000_000i64)),
                            ("amount", json!(-9_000_000_000_000_000_000i64)),
                            ("amount", json!(1e25)),
                        ])
                        .clone();
                    let mut b = good_t.clone();
                    b["properties"] = json!({ name: v });
                    w.refused(m, &track, &b.to_string(), false, "a number out of range");
                }
                8 => {
                    let mut b = good_t.clone();
                    let name = *r.pick(&[COLUMN_EVENT, COLUMN_CREATED_AT, COLUMN_EVENT_ID, COLUMN_PROJECT_ID, "group_0", "group_1", "ip"]);
                    let v = if name == COLUMN_CREATED_AT {
                        json!("2020-01-01T00:00:00Z")
                    } else if name == COLUMN_EVENT_ID {
                        json!(1)
                    } else {
                        json!("another")
                    };
                    b["properties"] = json!({ name: v });
                    w.refused(m, &track, &b.to_string(), true, "a property the system sets");
                }
                _ => {
                    // more kinds of groups than there is room for
                    while w.projs[p].groups.len() < GROUPS_COUNT {
                        let g = format!("g{}", w.projs[p].groups.len());
                        let b = json!({"group": g, "id": "x", "context": {}});
                        let resp = w.s().call("POST", &identify, &[], &b.to_string());
                        m.check(resp.as_ref().map(|x| x.status) == Ok(204), "identify refused", || format!("I03: a well-formed record is answered {resp:?}"));
                        w.group(p, &g);
                    }
                    for g in GROUPS {
                        if !w.projs[p].groups.iter().any(|x| x == g) {
                            let mut b = good_t.clone();
                            b["groups"] = json!({ g: "k" });
                            w.refused(m, &track, &b.to_string(), false, "a group too many");
                        }
                    }
                    w.refused(m, &identify, &json!({"group": "too many", "id": "x", "context": {}}).to_string(), false, "a group too many");
                    break;
                }
            }
        }
        // and the service goes on
        if !m.violated() {
            for p in 0..2 {
                let b = json!({"userId": "last", "event": "view", "context": {}});
                let resp = w.s().call("POST", &format!("/api/v1/ingest/{}/track", w.projs[p].token), &[], &b.to_string());
                m.check(resp.as_ref().map(|x| x.status) == Ok(201), "outage", || format!("I03: after requests refused, an event is answered {resp:?}"));
            }
        }
        m.count("worlds", 1);
        w.done();
    }
}
