//! The entity kinds of the metadata store behind one JSON interface, so that one model-based
//! engine can drive all of them.

use std::cell::RefCell;

use common::query::EventRef;
use common::query::PropValueFilter;
use common::query::PropValueOperation;
use common::query::PropertyRef;
use common::types::OptionalProperty;
use datafusion_common::ScalarValue;
use metadata::accounts;
use metadata::custom_events;
use metadata::dashboards;
use metadata::error::MetadataError;
use metadata::events;
use metadata::organizations;
use metadata::projects;
use metadata::properties;
use metadata::reports;
use metadata::teams;
use mon::Rng;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::json;
use serde_json::Map;
use serde_json::Value;

use crate::env::Env;
use crate::gen;

pub type Obj = Map<String, Value>;
pub type R<T> = Result<T, MetadataError>;

thread_local! {
    /// typed values that have no faithful JSON form are kept here and referred to by their text
    static EVENTS: RefCell<Vec<(String, Vec<custom_events::Event>)>> = const { RefCell::new(vec![]) };
    static QUERIES: RefCell<Vec<(String, reports::Query)>> = const { RefCell::new(vec![]) };
}

fn g<T: DeserializeOwned>(f: &Obj, k: &str) -> T {
    serde_json::from_value(f.get(k).cloned().unwrap_or(Value::Null))
        .unwrap_or_else(|e| panic!("harness: field {k}: {e}: {:?}", f.get(k)))
}
fn o<T: DeserializeOwned>(f: &Obj, k: &str) -> OptionalProperty<T> {
    match f.get(k) {
        None => OptionalProperty::None,
        Some(_) => OptionalProperty::Some(g(f, k)),
    }
}

fn snake(k: &str) -> String {
    if !k.starts_with(|c: char| c.is_ascii_lowercase()) {
        return k.to_string();
    }
    let mut s = String::new();
    for c in k.chars() {
        if c.is_ascii_uppercase() {
            s.push('_');
        }
        s.push(c.to_ascii_lowercase());
    }
    s
}

/// canonical form: times to the second (that is what is stored), empty lists like missing ones
/// (the encoding has no way to tell them apart)
pub fn norm(v: &mut Value) {
    match v {
        Value::Object(m) => {
            let mut n = Map::new();
            for (k, x) in std::mem::take(m) {
                n.insert(if k == "type" { "typ".into() } else { snake(&k) }, x);
            }
            *m = n;
            for (k, x) in m.iter_mut() {
                if k == "created_at" || k == "updated_at" {
                    if let Value::String(s) = x {
                        if let Some(p) = s.find('.') {
                            *s = format!("{}Z", &s[..p]);
                        }
                    }
                } else {
                    norm(x);
                }
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                norm(x);
            }
            if a.is_empty() {
                *v = Value::Null;
            }
        }
        _ => {}
    }
}
pub fn to_obj<T: Serialize>(t: &T) -> Obj {
    let mut v = serde_json::to_value(t).unwrap();
    norm(&mut v);
    match v {
        Value::Object(m) => m,
        _ => panic!("harness: not an object"),
    }
}

fn events_text(ev: &[custom_events::Event]) -> String {
    let mut s = String::new();
    for e in ev {
        s += &format!("{:?}", e.event);
        for PropValueFilter::Property { property, operation, value } in e.filters.iter().flatten() {
            s += &format!(" [{property:?} {operation:?}");
            for x in value.iter().flatten() {
                s += &format!(" {}", gen::describe(x));
            }
            s += "]";
        }
        s += ";";
    }
    s
}

pub trait Kind {
    fn name(&self) -> &'static str;
    /// every field a create request has
    fn fields(&self) -> &'static [&'static str];
    /// fields an update may change
    fn updatable(&self) -> &'static [&'static str];
    /// fields that no two live entities may share
    fn unique(&self) -> &'static [&'static str];
    /// is there only one scope
    fn global(&self) -> bool {
        false
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, scope: u64) -> Value;
    fn create(&self, e: &Env, scope: u64, f: &Obj) -> R<Obj>;
    fn get_or_create(&self, _e: &Env, _scope: u64, _f: &Obj) -> Option<R<Obj>> {
        None
    }
    fn update(&self, e: &Env, scope: u64, id: u64, by: u64, f: &Obj) -> R<Obj>;
    fn get(&self, e: &Env, scope: u64, id: u64) -> R<Obj>;
    fn list(&self, e: &Env, scope: u64) -> R<Vec<Obj>>;
    fn delete(&self, e: &Env, scope: u64, id: u64) -> R<Obj>;
    /// look up by a unique field, where the API has it
    fn lookup(&self, _e: &Env, _scope: u64, _field: &str, _value: &str) -> Option<R<Obj>> {
        None
    }
}

fn opt(r: &mut Rng, v: impl FnOnce(&mut Rng) -> Value) -> Value {
    if r.chance(1, 3) {
        Value::Null
    } else {
        v(r)
    }
}
fn text(r: &mut Rng) -> Value {
    json!(r.string())
}
fn tags(r: &mut Rng) -> Value {
    opt(r, |r| Value::Array((0..r.below(4)).map(|_| text(r)).collect()))
}
fn status(r: &mut Rng) -> Value {
    json!(*r.pick(&["Enabled", "Disabled"]))
}
fn name(r: &mut Rng, names: &[String]) -> Value {
    json!(r.pick(names))
}
fn ids(r: &mut Rng) -> Value {
    opt(r, |r| Value::Array((0..r.below(4)).map(|_| json!(big(r))).collect()))
}
fn big(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.next(),
        1 => r.next() >> 33,
        _ => r.below(20) as u64,
    }
}
fn memberships(r: &mut Rng, roles: &[&str]) -> Value {
    opt(r, |r| {
        let n = r.below(4);
        Value::Array((0..n).map(|i| json!([r.below(1000) as u64 + i as u64 * 1000, r.pick(roles)])).collect())
    })
}

macro_rules! req {
    ($T:path, $f:expr; $($k:ident),*) => { { type T0 = $T; T0 { $($k: g($f, stringify!($k))),* } } };
}
macro_rules! upd {
    ($T:path, $f:expr, $by:expr; $($k:ident),*) => { { type T0 = $T; T0 { updated_by: $by, $($k: o($f, stringify!($k))),* } } };
}
macro_rules! upd_default {
    ($T:path, $f:expr, $by:expr; $($k:ident),*) => { { type T0 = $T; T0 { updated_by: $by, $($k: o($f, stringify!($k)),)* ..Default::default() } } };
}
macro_rules! lst {
    ($e:expr) => {
        $e.map(|l| l.data.iter().map(to_obj).collect())
    };
}

pub struct Accounts;
impl Kind for Accounts {
    fn name(&self) -> &'static str {
        "account"
    }
    fn global(&self) -> bool {
        true
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "password_hash", "email", "name", "force_update_password", "force_update_email", "role", "organizations", "projects", "teams"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["password_hash", "email", "name", "force_update_password", "force_update_email", "role", "organizations", "projects", "teams"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["email"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "password_hash" => text(r),
            "email" => name(r, names),
            "name" => opt(r, text),
            "force_update_password" | "force_update_email" => json!(r.bool()),
            "role" => opt(r, |_| json!("Admin")),
            "organizations" => memberships(r, &["Owner", "Admin", "Member"]),
            "projects" => memberships(r, &["Owner", "Admin", "Member", "Reader"]),
            "teams" => memberships(r, &["Admin"]),
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, _: u64, f: &Obj) -> R<Obj> {
        e.md.accounts
            .create(req!(accounts::CreateAccountRequest, f; created_by, password_hash, email, name, force_update_password, force_update_email, role, organizations, projects, teams))
            .map(|x| to_obj(&x))
    }
    fn update(&self, e: &Env, _: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.accounts
            .update(id, upd!(accounts::UpdateAccountRequest, f, by; password_hash, email, name, force_update_password, force_update_email, role, organizations, projects, teams))
            .map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, _: u64, id: u64) -> R<Obj> {
        e.md.accounts.get_by_id(id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, _: u64) -> R<Vec<Obj>> {
        lst!(e.md.accounts.list())
    }
    fn delete(&self, e: &Env, _: u64, id: u64) -> R<Obj> {
        e.md.accounts.delete(id).map(|x| to_obj(&x))
    }
    fn lookup(&self, e: &Env, _: u64, _: &str, v: &str) -> Option<R<Obj>> {
        Some(e.md.accounts.get_by_email(v).map(|x| to_obj(&x)))
    }
}

/// organisations; the account that creates them is one the engine does not touch otherwise
pub struct Orgs(pub u64);
impl Kind for Orgs {
    fn name(&self) -> &'static str {
        "organization"
    }
    fn global(&self) -> bool {
        true
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "name"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["name"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["name"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(self.0),
            "name" => name(r, names),
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, _: u64, f: &Obj) -> R<Obj> {
        e.md.organizations.create(req!(organizations::CreateOrganizationRequest, f; created_by, name)).map(|x| to_obj(&x))
    }
    fn update(&self, e: &Env, _: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.organizations.update(id, upd!(organizations::UpdateOrganizationRequest, f, by; name)).map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, _: u64, id: u64) -> R<Obj> {
        e.md.organizations.get_by_id(id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, _: u64) -> R<Vec<Obj>> {
        lst!(e.md.organizations.list())
    }
    fn delete(&self, e: &Env, _: u64, id: u64) -> R<Obj> {
        e.md.organizations.delete(id).map(|x| to_obj(&x))
    }
}

pub struct Teams;
impl Kind for Teams {
    fn name(&self) -> &'static str {
        "team"
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "organization_id", "name"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["name"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["name"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, scope: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "organization_id" => json!(scope),
            "name" => name(r, names),
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, s: u64, f: &Obj) -> R<Obj> {
        e.teams.create(s, req!(teams::CreateTeamRequest, f; created_by, organization_id, name)).map(|x| to_obj(&x))
    }
    fn update(&self, e: &Env, s: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.teams.update(s, id, upd!(teams::UpdateTeamRequest, f, by; name)).map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.teams.get_by_id(s, id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, s: u64) -> R<Vec<Obj>> {
        lst!(e.teams.list(s))
    }
    fn delete(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.teams.delete(s, id).map(|x| to_obj(&x))
    }
}

pub struct Projects;
impl Kind for Projects {
    fn name(&self) -> &'static str {
        "project"
    }
    fn global(&self) -> bool {
        true
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "organization_id", "name", "description", "tags", "token", "session_duration_seconds"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["name", "description", "tags", "token", "session_duration_seconds"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["name", "token"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" | "organization_id" => json!(big(r)),
            "session_duration_seconds" => json!(big(r) >> 2),
            "name" | "token" => name(r, names),
            "description" => opt(r, text),
            "tags" => tags(r),
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, _: u64, f: &Obj) -> R<Obj> {
        e.md.projects
            .create(req!(projects::CreateProjectRequest, f; created_by, organization_id, name, description, tags, token, session_duration_seconds))
            .map(|x| to_obj(&x))
    }
    fn update(&self, e: &Env, _: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.projects
            .update(id, upd!(projects::UpdateProjectRequest, f, by; name, description, tags, token, session_duration_seconds))
            .map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, _: u64, id: u64) -> R<Obj> {
        e.md.projects.get_by_id(id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, _: u64) -> R<Vec<Obj>> {
        lst!(e.md.projects.list())
    }
    fn delete(&self, e: &Env, _: u64, id: u64) -> R<Obj> {
        e.md.projects.delete(id).map(|x| to_obj(&x))
    }
    fn lookup(&self, e: &Env, _: u64, k: &str, v: &str) -> Option<R<Obj>> {
        if k == "token" {
            Some(e.md.projects.get_by_token(v).map(|x| to_obj(&x)))
        } else {
            None
        }
    }
}

pub struct Events;
impl Kind for Events {
    fn name(&self) -> &'static str {
        "event"
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "tags", "name", "display_name", "description", "status", "is_system", "event_properties", "user_properties", "custom_properties"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["tags", "name", "display_name", "description", "status", "is_system", "event_properties", "user_properties", "custom_properties"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["name", "display_name"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "name" => name(r, names),
            "display_name" => opt(r, |r| name(r, names)),
            "description" => opt(r, text),
            "tags" => tags(r),
            "status" => status(r),
            "is_system" => json!(r.bool()),
            _ => ids(r),
        }
    }
    fn create(&self, e: &Env, s: u64, f: &Obj) -> R<Obj> {
        e.md.events.create(s, ev_req(f)).map(|x| to_obj(&x))
    }
    fn get_or_create(&self, e: &Env, s: u64, f: &Obj) -> Option<R<Obj>> {
        Some(e.md.events.get_or_create(s, ev_req(f)).map(|x| to_obj(&x)))
    }
    fn update(&self, e: &Env, s: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.events
            .update(s, id, upd!(events::UpdateEventRequest, f, by; tags, name, display_name, description, status, is_system, event_properties, user_properties, custom_properties))
            .map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.events.get_by_id(s, id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, s: u64) -> R<Vec<Obj>> {
        lst!(e.md.events.list(s))
    }
    fn delete(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.events.delete(s, id).map(|x| to_obj(&x))
    }
    fn lookup(&self, e: &Env, s: u64, k: &str, v: &str) -> Option<R<Obj>> {
        if k == "name" {
            Some(e.md.events.get_by_name(s, v).map(|x| to_obj(&x)))
        } else {
            None
        }
    }
}
fn ev_req(f: &Obj) -> events::CreateEventRequest {
    req!(events::CreateEventRequest, f; created_by, tags, name, display_name, description, status, is_system, event_properties, user_properties, custom_properties)
}

/// properties of events (None) or of one group
pub struct Props(pub Option<usize>);
impl Props {
    fn api<'a>(&self, e: &'a Env) -> &'a properties::Properties {
        match self.0 {
            None => &e.md.event_properties,
            Some(g) => &e.md.group_properties[g],
        }
    }
}
pub fn prop_req(f: &Obj) -> properties::CreatePropertyRequest {
    req!(properties::CreatePropertyRequest, f; created_by, tags, name, description, display_name, typ, data_type, status, hidden, is_system, nullable, is_array, is_dictionary, dictionary_type)
}
impl Kind for Props {
    fn name(&self) -> &'static str {
        match self.0 {
            None => "event property",
            Some(0) => "group 0 property",
            Some(_) => "other group's property",
        }
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "tags", "name", "description", "display_name", "typ", "data_type", "status", "hidden", "is_system", "nullable", "is_array", "is_dictionary", "dictionary_type"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["tags", "description", "display_name", "status", "is_system", "is_array"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["name", "display_name"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "name" => name(r, names),
            "display_name" => opt(r, |r| name(r, names)),
            "description" => opt(r, text),
            "tags" => tags(r),
            "status" => status(r),
            "typ" => match self.0 {
                None => json!("Event"),
                Some(g) => json!({ "Group": g }),
            },
            "data_type" => json!(*r.pick(&["string", "int8", "int16", "int32", "int64", "decimal", "boolean", "timestamp"])),
            "dictionary_type" => opt(r, |r| json!(*r.pick(&["Int8", "Int16", "Int32", "Int64"]))),
            "nullable" => json!(true),
            // the columns of system properties are judged by M08
            "is_system" => json!(false),
            _ => json!(r.bool()),
        }
    }
    fn create(&self, e: &Env, s: u64, f: &Obj) -> R<Obj> {
        self.api(e).create(s, prop_req(f)).map(|x| to_obj(&x))
    }
    fn get_or_create(&self, e: &Env, s: u64, f: &Obj) -> Option<R<Obj>> {
        Some(self.api(e).get_or_create(s, prop_req(f)).map(|x| to_obj(&x)))
    }
    fn update(&self, e: &Env, s: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        self.api(e)
            .update(s, id, upd_default!(properties::UpdatePropertyRequest, f, by; tags, description, display_name, status, is_system, is_array))
            .map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        self.api(e).get_by_id(s, id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, s: u64) -> R<Vec<Obj>> {
        lst!(self.api(e).list(s))
    }
    fn delete(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        self.api(e).delete(s, id).map(|x| to_obj(&x))
    }
    fn lookup(&self, e: &Env, s: u64, k: &str, v: &str) -> Option<R<Obj>> {
        if k == "name" {
            Some(self.api(e).get_by_name(s, v).map(|x| to_obj(&x)))
        } else {
            None
        }
    }
}

/// custom events made of the regular event with id 1, which the engine keeps alive
pub struct CustomEvents;
fn ce_obj(c: &custom_events::CustomEvent) -> Obj {
    let mut plain = c.clone();
    plain.events = vec![];
    let mut m = to_obj(&plain);
    m.insert("events".into(), json!(events_text(&c.events)));
    m
}
fn ce_events(f: &Obj) -> Vec<custom_events::Event> {
    let t: String = g(f, "events");
    EVENTS.with(|x| x.borrow().iter().find(|x| x.0 == t).expect("harness: events").1.clone())
}
fn filter_value(r: &mut Rng, k: usize) -> ScalarValue {
    match k {
        0 => ScalarValue::Boolean(Some(r.bool())),
        1 => ScalarValue::Decimal128(Some(gen::i128_edge(r)), common::DECIMAL_PRECISION, common::DECIMAL_SCALE),
        2 => ScalarValue::Utf8(Some(r.string())),
        3 => ScalarValue::Int8(Some(r.next() as i8)),
        4 => ScalarValue::Int16(Some(r.next() as i16)),
        5 => ScalarValue::Int32(Some(r.next() as i32)),
        6 => ScalarValue::Int64(Some(r.i64_edge())),
        _ => ScalarValue::TimestampMillisecond(Some(r.i64_edge()), None),
    }
}
const OPS: [PropValueOperation; 14] = [
    PropValueOperation::Eq,
    PropValueOperation::Neq,
    PropValueOperation::Gt,
    PropValueOperation::Gte,
    PropValueOperation::Lt,
    PropValueOperation::Lte,
    PropValueOperation::True,
    PropValueOperation::False,
    PropValueOperation::Exists,
    PropValueOperation::Empty,
    PropValueOperation::Like,
    PropValueOperation::NotLike,
    PropValueOperation::Regex,
    PropValueOperation::NotRegex,
];
impl Kind for CustomEvents {
    fn name(&self) -> &'static str {
        "custom event"
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "tags", "name", "description", "status", "is_system", "events"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["tags", "name", "description", "status", "is_system", "events"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &["name"]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "name" => name(r, names),
            "description" => opt(r, text),
            "tags" => tags(r),
            "status" => status(r),
            "is_system" => json!(r.bool()),
            "events" => {
                let n = 1 + r.below(3);
                let mut v = vec![];
                for _ in 0..n {
                    let filters = if r.bool() {
                        None
                    } else {
                        Some(
                            (0..r.below(3))
                                .map(|_| PropValueFilter::Property {
                                    property: match r.below(3) {
                                        0 => PropertyRef::Event(r.string()),
                                        1 => PropertyRef::Group(r.string(), r.below(10)),
                                        _ => PropertyRef::Custom(big(r)),
                                    },
                                    operation: r.pick(&OPS).clone(),
                                    value: if r.chance(1, 4) {
                                        None
                                    } else {
                                        let k = r.below(8);
                                        Some((0..r.below(4)).map(|_| filter_value(r, k)).collect())
                                    },
                                })
                                .collect(),
                        )
                    };
                    let event = if r.bool() { EventRef::Regular(1) } else { EventRef::RegularName("kept event".into()) };
                    v.push(custom_events::Event { event, filters });
                }
                let t = events_text(&v);
                EVENTS.with(|x| {
                    if !x.borrow().iter().any(|x| x.0 == t) {
                        x.borrow_mut().push((t.clone(), v))
                    }
                });
                json!(t)
            }
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, s: u64, f: &Obj) -> R<Obj> {
        e.md.custom_events
            .create(s, custom_events::CreateCustomEventRequest {
                created_by: g(f, "created_by"),
                tags: g(f, "tags"),
                name: g(f, "name"),
                description: g(f, "description"),
                status: g(f, "status"),
                is_system: g(f, "is_system"),
                events: ce_events(f),
            })
            .map(|x| ce_obj(&x))
    }
    fn update(&self, e: &Env, s: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.custom_events
            .update(s, id, custom_events::UpdateCustomEventRequest {
                updated_by: by,
                tags: o(f, "tags"),
                name: o(f, "name"),
                description: o(f, "description"),
                status: o(f, "status"),
                is_system: o(f, "is_system"),
                events: if f.contains_key("events") { OptionalProperty::Some(ce_events(f)) } else { OptionalProperty::None },
            })
            .map(|x| ce_obj(&x))
    }
    fn get(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.custom_events.get_by_id(s, id).map(|x| ce_obj(&x))
    }
    fn list(&self, e: &Env, s: u64) -> R<Vec<Obj>> {
        e.md.custom_events.list(s).map(|l| l.data.iter().map(ce_obj).collect())
    }
    fn delete(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.custom_events.delete(s, id).map(|x| ce_obj(&x))
    }
    fn lookup(&self, e: &Env, s: u64, _: &str, v: &str) -> Option<R<Obj>> {
        Some(e.md.custom_events.get_by_name(s, v).map(|x| ce_obj(&x)))
    }
}

pub struct Dashboards;
impl Kind for Dashboards {
    fn name(&self) -> &'static str {
        "dashboard"
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "tags", "name", "description", "panels"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["tags", "name", "description", "panels"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &[]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "name" => name(r, names),
            "description" => opt(r, text),
            "tags" => tags(r),
            "panels" => Value::Array(
                (0..r.below(4))
                    .map(|_| json!({"typ": "report", "report_id": big(r), "x": r.below(50), "y": r.below(5000), "w": r.below(9), "h": r.below(300)}))
                    .collect(),
            ),
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, s: u64, f: &Obj) -> R<Obj> {
        e.md.dashboards
            .create(s, dashboards::CreateDashboardRequest {
                created_by: g(f, "created_by"),
                tags: g(f, "tags"),
                name: g(f, "name"),
                description: g(f, "description"),
                panels: panels(f),
            })
            .map(|x| to_obj(&x))
    }
    fn update(&self, e: &Env, s: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.dashboards
            .update(s, id, dashboards::UpdateDashboardRequest {
                updated_by: by,
                tags: o(f, "tags"),
                name: o(f, "name"),
                description: o(f, "description"),
                panels: if f.contains_key("panels") { OptionalProperty::Some(panels(f)) } else { OptionalProperty::None },
            })
            .map(|x| to_obj(&x))
    }
    fn get(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.dashboards.get_by_id(s, id).map(|x| to_obj(&x))
    }
    fn list(&self, e: &Env, s: u64) -> R<Vec<Obj>> {
        lst!(e.md.dashboards.list(s))
    }
    fn delete(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.dashboards.delete(s, id).map(|x| to_obj(&x))
    }
}
fn panels(f: &Obj) -> Vec<dashboards::Panel> {
    f["panels"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|p| {
            let n = |k: &str| p[k].as_u64().unwrap() as usize;
            dashboards::Panel {
                typ: dashboards::Type::Report,
                report_id: p["report_id"].as_u64().unwrap(),
                x: n("x"),
                y: n("y"),
                w: n("w"),
                h: n("h"),
            }
        })
        .collect()
}

pub struct Reports;
fn rp_obj(c: &reports::Report) -> Obj {
    let mut plain = c.clone();
    plain.query = reports::Query::Funnel(gen::funnel(&mut Rng::new(1)));
    let mut m = to_obj(&plain);
    m.insert("query".into(), json!(format!("{:?}", c.query)));
    m
}
pub fn query(r: &mut Rng) -> reports::Query {
    if r.bool() {
        reports::Query::EventSegmentation(gen::es_request(r))
    } else {
        reports::Query::Funnel(gen::funnel(r))
    }
}
fn rp_query(f: &Obj) -> reports::Query {
    let t: String = g(f, "query");
    QUERIES.with(|x| x.borrow().iter().find(|x| x.0 == t).expect("harness: query").1.clone())
}
impl Kind for Reports {
    fn name(&self) -> &'static str {
        "report"
    }
    fn fields(&self) -> &'static [&'static str] {
        &["created_by", "tags", "name", "description", "typ", "query"]
    }
    fn updatable(&self) -> &'static [&'static str] {
        &["tags", "name", "description", "typ", "query"]
    }
    fn unique(&self) -> &'static [&'static str] {
        &[]
    }
    fn gen(&self, r: &mut Rng, names: &[String], field: &str, _: u64) -> Value {
        match field {
            "created_by" => json!(big(r)),
            "name" => name(r, names),
            "description" => opt(r, text),
            "tags" => tags(r),
            "typ" => json!(*r.pick(&["eventSegmentation", "funnel"])),
            "query" => {
                let q = query(r);
                let t = format!("{q:?}");
                QUERIES.with(|x| x.borrow_mut().push((t.clone(), q)));
                json!(t)
            }
            _ => unreachable!(),
        }
    }
    fn create(&self, e: &Env, s: u64, f: &Obj) -> R<Obj> {
        e.md.reports
            .create(s, reports::CreateReportRequest {
                created_by: g(f, "created_by"),
                tags: g(f, "tags"),
                name: g(f, "name"),
                description: g(f, "description"),
                typ: g(f, "typ"),
                query: rp_query(f),
            })
            .map(|x| rp_obj(&x))
    }
    fn update(&self, e: &Env, s: u64, id: u64, by: u64, f: &Obj) -> R<Obj> {
        e.md.reports
            .update(s, id, reports::UpdateReportRequest {
                updated_by: by,
                tags: o(f, "tags"),
                name: o(f, "name"),
                description: o(f, "description"),
                typ: o(f, "typ"),
                query: if f.contains_key("query") { OptionalProperty::Some(rp_query(f)) } else { OptionalProperty::None },
            })
            .map(|x| rp_obj(&x))
    }
    fn get(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.reports.get_by_id(s, id).map(|x| rp_obj(&x))
    }
    fn list(&self, e: &Env, s: u64) -> R<Vec<Obj>> {
        e.md.reports.list(s).map(|l| l.data.iter().map(rp_obj).collect())
    }
    fn delete(&self, e: &Env, s: u64, id: u64) -> R<Obj> {
        e.md.reports.delete(s, id).map(|x| rp_obj(&x))
    }
}

pub fn reset_pools() {
    EVENTS.with(|x| x.borrow_mut().clear());
    QUERIES.with(|x| x.borrow_mut().clear());
}
