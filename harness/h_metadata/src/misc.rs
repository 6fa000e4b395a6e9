//! The stores that do not follow the common create/get/list/update/delete shape: bookmarks,
//! sessions, backups, settings, groups and their values, memberships, properties of events.
//! A map from "scope|entity" to what must be read there is kept next to the real store.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::path::PathBuf;

use chrono::DateTime;
use common::rbac::OrganizationRole;
use common::GROUPS_COUNT;
use metadata::backups::*;
use metadata::bookmarks::CreateBookmarkRequest;
use metadata::error::MetadataError;
use metadata::events::CreateEventRequest;
use metadata::groups::PropertyValue;
use metadata::groups::Value as GV;
use metadata::settings::*;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value;

use crate::engine::err_class;
use crate::env::Env;
use crate::kinds;
use crate::kinds::norm;

type Model = BTreeMap<String, Value>;

struct W<'a> {
    e: Env,
    model: Model,
    known: Known,
    mon: &'a mut Mon,
    log: Vec<String>,
}
#[derive(Default)]
struct Known {
    projects: Vec<u64>,
    accounts: Vec<u64>,
    orgs: Vec<u64>,
    bookmarks: BTreeSet<(u64, u64, String)>,
    users: BTreeSet<(u64, u64)>,
    backups: BTreeSet<u64>,
    events: BTreeSet<(u64, u64)>,
    keys: Vec<String>,
    /// ids given per (project, group)
    ids: BTreeMap<(u64, u64), BTreeSet<u64>>,
    anon: BTreeMap<(u64, u64, String), u64>,
    group_names: BTreeMap<u64, Vec<String>>,
}
pub struct Dev(pub &'static [&'static str], pub String, pub String);
type Res<T = ()> = Result<T, Dev>;

fn js<T: serde::Serialize>(t: &T) -> Value {
    let mut v = serde_json::to_value(t).unwrap();
    norm(&mut v);
    v
}
fn bm(b: &metadata::bookmarks::Bookmark) -> Value {
    json!([b.id, b.created_at.timestamp(), b.created_by, b.project_id, format!("{:?}", b.query)])
}
fn role(r: &mut Rng) -> OrganizationRole {
    r.pick(&[OrganizationRole::Owner, OrganizationRole::Admin, OrganizationRole::Member]).clone()
}
fn text(r: &mut Rng) -> String {
    r.string()
}
fn settings(r: &mut Rng) -> Settings {
    let t = |r: &mut Rng| if r.chance(1, 4) { String::new() } else { text(r) };
    Settings {
        auth_access_token: t(r),
        auth_refresh_token: t(r),
        auth_admin_default_password: t(r),
        backup_enabled: r.bool(),
        backup_encryption_enabled: r.bool(),
        backup_encryption_password: t(r),
        backup_compression_enabled: r.bool(),
        backup_provider: r.pick(&[BackupProvider::Local, BackupProvider::S3, BackupProvider::GCP]).clone(),
        backup_provider_local_path: t(r),
        backup_provider_s3_bucket: t(r),
        backup_provider_s3_path: t(r),
        backup_provider_s3_region: t(r),
        backup_provider_s3_access_key: t(r),
        backup_provider_s3_secret_key: t(r),
        backup_provider_gcp_bucket: t(r),
        backup_provider_gcp_path: t(r),
        backup_provider_gcp_key: t(r),
        backup_schedule_interval: r
            .pick(&[
                BackupScheduleInterval::Hourly,
                BackupScheduleInterval::Daily,
                BackupScheduleInterval::Weekly,
                BackupScheduleInterval::Monthly,
                BackupScheduleInterval::Yearly,
            ])
            .clone(),
        backup_schedule_start_hour: r.below(24),
    }
}
/// must a configuration be refused
fn incomplete(s: &Settings) -> bool {
    (s.backup_encryption_enabled && s.backup_encryption_password.is_empty())
        || match s.backup_provider {
            BackupProvider::Local => false,
            BackupProvider::S3 => {
                s.backup_provider_s3_bucket.is_empty()
                    || s.backup_provider_s3_region.is_empty()
                    || s.backup_provider_s3_access_key.is_empty()
                    || s.backup_provider_s3_secret_key.is_empty()
            }
            BackupProvider::GCP => s.backup_provider_gcp_bucket.is_empty() || s.backup_provider_gcp_key.is_empty(),
        }
}
fn provider(r: &mut Rng) -> Provider {
    match r.below(3) {
        0 => Provider::Local(PathBuf::from(format!("/tmp/{}", r.ident()))),
        1 => Provider::S3(S3Provider { bucket: text(r), path: text(r), region: text(r) }),
        _ => Provider::GCP(GCPProvider { bucket: text(r), path: text(r) }),
    }
}
fn status(r: &mut Rng) -> Status {
    match r.below(6) {
        0 | 1 => Status::Idle,
        2 => Status::InProgress(*r.pick(&[0, 1, 99, 100, 1 << 40])),
        3 => Status::Uploading,
        4 => Status::Failed(text(r)),
        _ => Status::Completed,
    }
}
fn value(r: &mut Rng) -> GV {
    match r.below(9) {
        0 => GV::Null,
        1 => GV::Int8(Some(r.i64_edge() as i8)),
        2 => GV::Int16(Some(r.i64_edge() as i16)),
        3 => GV::Int32(Some(r.i64_edge() as i32)),
        4 => GV::Int64(Some(r.i64_edge())),
        5 => GV::Boolean(Some(r.bool())),
        6 => GV::Timestamp(Some(r.i64_edge())),
        7 => GV::Decimal(Some((r.i64_edge() as i128) << r.below(40))),
        _ => GV::String(Some(text(r))),
    }
}
fn values(r: &mut Rng) -> Vec<PropertyValue> {
    let mut ids = vec![1u64, 2, 3, 10, u64::MAX];
    r.shuffle(&mut ids);
    ids.truncate(r.below(4));
    ids.into_iter().map(|property_id| PropertyValue { property_id, value: value(r) }).collect()
}
fn members_of(v: &Value) -> BTreeMap<u64, Value> {
    v.as_array().map(|a| a.iter().map(|x| (x[0].as_u64().unwrap(), x[1].clone())).collect()).unwrap_or_default()
}

impl W<'_> {
    /// read everything the store is known to hold
    fn read(&mut self) -> Res<Model> {
        let e = &self.e;
        let mut m = Model::new();
        let mut put = |k: String, r: Result<Value, MetadataError>| -> Res {
            match r {
                Ok(v) => {
                    m.insert(k, v);
                    Ok(())
                }
                Err(MetadataError::NotFound(_)) => Ok(()),
                Err(x) => Err(Dev(&["M01"], format!("{}: reading fails", k.split('|').nth(1).unwrap().split(' ').next().unwrap()), x.to_string())),
            }
        };
        let k = &self.known;
        for (p, a, id) in &k.bookmarks {
            put(format!("{p}|bookmark {id} of {a}"), e.md.bookmarks.get_by_id(*p, *a, id).map(|b| bm(&b)))?;
        }
        for p in &k.projects {
            for (_, u) in k.users.iter().filter(|x| x.0 == *p) {
                put(format!("{p}|session {u}"), e.md.sessions.get_by_user_id(*p, *u).map(|b| js(&b)))?;
            }
            put(
                format!("{p}|groups"),
                e.md.groups.list_groups(*p).map(|l| {
                    let mut v: Vec<_> = l.data.iter().map(js).collect();
                    v.sort_by_key(|x| x["id"].as_u64());
                    json!(v)
                }),
            )?;
            for (_, id) in k.events.iter().filter(|x| x.0 == *p) {
                put(
                    format!("{p}|event {id}"),
                    e.md.events.get_by_id(*p, *id).map(|b| json!([b.event_properties.unwrap_or_default(), b.user_properties.unwrap_or_default(), b.name])),
                )?;
            }
        }
        for id in &k.backups {
            put(format!("*|backup {id}"), e.md.backups.get_by_id(*id).map(|b| js(&b)))?;
        }
        put("*|backups".into(), e.md.backups.list().map(|l| {
            let mut ids: Vec<u64> = l.data.iter().map(|x| x.id).collect();
            ids.sort();
            json!(ids)
        }))?;
        put("*|settings".into(), e.md.settings.load().map(|s| json!(format!("{s:?}"))))?;
        for id in &k.orgs {
            put(format!("*|organization {id}"), e.md.organizations.get_by_id(*id).map(|o| json!(members_of(&js(&o)["members"]))))?;
        }
        for id in &k.accounts {
            put(format!("*|account {id}"), e.md.accounts.get_by_id(*id).map(|o| json!(members_of(&js(&o)["organizations"]))))?;
        }
        Ok(m)
    }
    /// compare with the model; `scope` is where the last operation worked
    fn compare(&mut self, scope: &str, op: &str) -> Res {
        let got = self.read()?;
        for (k, v) in &self.model {
            let g = got.get(k);
            if g != Some(v) {
                let what = k.split('|').nth(1).unwrap().split(' ').next().unwrap().to_string();
                let here = k.split('|').next().unwrap() == scope;
                let msg = format!("after {op}: {k}: must be {v}, reads {}", g.map(|x| x.to_string()).unwrap_or("nothing".into()));
                return Err(Dev(if here { &["M01"] } else { &["M05"] }, format!("{what}: differs after {op}"), msg));
            }
        }
        for k in got.keys() {
            if !self.model.contains_key(k) {
                let what = k.split('|').nth(1).unwrap().split(' ').next().unwrap().to_string();
                let here = k.split('|').next().unwrap() == scope;
                return Err(Dev(if here { &["M01"] } else { &["M05"] }, format!("{what}: still there after {op}"), format!("after {op}: {k}: {}", got[k])));
            }
        }
        self.mon.count("entities compared", self.model.len() as u64);
        Ok(())
    }
    fn ok<T>(&self, op: &str, r: Result<Result<T, MetadataError>, String>) -> Res<T> {
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(x)) => Err(Dev(&["M01"], format!("{op}: refused"), x.to_string())),
            Err(p) => Err(Dev(&["M01"], format!("{op}: panics"), p)),
        }
    }
    fn refused<T>(&self, op: &str, class: &str, r: Result<Result<T, MetadataError>, String>) -> Res {
        match r {
            Ok(Err(x)) if err_class(&x) == class => Ok(()),
            Ok(Err(x)) => Err(Dev(&["M01"], format!("{op}: must be refused as {class}"), format!("refused as {}: {x}", err_class(&x)))),
            Ok(Ok(_)) => Err(Dev(&["M01"], format!("{op}: must be refused as {class}"), "accepted".into())),
            Err(p) => Err(Dev(&["M01"], format!("{op}: panics"), p)),
        }
    }
    fn step(&mut self, r: &mut Rng) -> Res<(String, String)> {
        let p = *r.pick(&self.known.projects);
        let ps = p.to_string();
        let any = |r: &mut Rng| 1 + r.below(12) as u64;
        let op;
        match r.below(20) {
            0 => {
                op = "create bookmark".to_string();
                let a = *r.pick(&[1u64, 10, 100]);
                let q = if r.bool() { Some(kinds::query(r)) } else { None };
                let b = self.ok(&op, guarded(|| self.e.md.bookmarks.create(p, CreateBookmarkRequest { created_by: a, query: q.clone() })))?;
                if b.project_id != p || b.created_by != a || format!("{:?}", b.query) != format!("{q:?}") || (chrono::Utc::now() - b.created_at).num_seconds().abs() > 5 {
                    return Err(Dev(&["M01"], "create bookmark: returns something else".into(), format!("{b:?}")));
                }
                if !self.known.bookmarks.insert((p, a, b.id.clone())) {
                    return Err(Dev(&["M03"], "bookmark id given twice".into(), b.id.clone()));
                }
                self.model.insert(format!("{p}|bookmark {} of {a}", b.id), bm(&b));
                Ok((ps, op))
            }
            1 => {
                op = "delete bookmark".to_string();
                let all: Vec<_> = self.known.bookmarks.iter().cloned().collect();
                if all.is_empty() {
                    return Ok((ps, "nothing".into()));
                }
                let (mut p, mut a, id) = r.pick(&all).clone();
                if r.chance(1, 4) {
                    a = *r.pick(&[1, 10, 100]);
                    p = *r.pick(&self.known.projects);
                }
                let res = guarded(|| self.e.md.bookmarks.delete(p, a, &id));
                match self.model.remove(&format!("{p}|bookmark {id} of {a}")) {
                    Some(v) => {
                        let b = self.ok(&op, res)?;
                        if bm(&b) != v {
                            return Err(Dev(&["M01"], "delete bookmark: returns something else".into(), format!("{b:?}")));
                        }
                    }
                    None => self.refused(&op, "NotFound", res)?,
                }
                Ok((p.to_string(), op))
            }
            2 | 3 => {
                op = "set session time".to_string();
                let u = any(r);
                let t = DateTime::from_timestamp(*r.pick(&[0, 1, 1_700_000_000, 253402300799]) - r.below(5) as i64, 0).unwrap();
                let n = self.ok(&op, guarded(|| self.e.md.sessions.set_current_time(p, u, t)))?;
                let k = format!("{p}|session {u}");
                if n == self.model.contains_key(&k) {
                    return Err(Dev(&["M01"], "session: told new or not wrongly".into(), format!("{k}: new = {n}")));
                }
                self.known.users.insert((p, u));
                self.model.insert(k, js(&metadata::sessions::Session { user_id: u, created_at: t }));
                Ok((ps, op))
            }
            4 => {
                op = "clear sessions".to_string();
                self.ok(&op, guarded(|| self.e.md.sessions.clear_project(p)))?;
                self.model.retain(|k, _| !k.starts_with(&format!("{p}|session ")));
                Ok((ps, op))
            }
            5 => {
                op = "expire sessions".to_string();
                let at = DateTime::from_timestamp(*r.pick(&[1i64, 1_699_999_999, 1_700_000_001]), 0).unwrap();
                let fail = r.chance(1, 5);
                let seen = std::sync::Mutex::new(vec![]);
                let res = guarded(|| {
                    self.e.md.sessions.check_for_deletion(p, |s| {
                        seen.lock().unwrap().push(s.clone());
                        if fail && seen.lock().unwrap().len() > 1 {
                            return Err(MetadataError::Internal("injected".into()));
                        }
                        Ok(s.created_at < at)
                    })
                });
                let pre = format!("{p}|session ");
                let want: Vec<Value> = self.model.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(_, v)| v.clone()).collect();
                let seen = seen.into_inner().unwrap();
                if fail && want.len() > 1 {
                    if !matches!(res, Ok(Err(_))) {
                        return Err(Dev(&["M01"], "expire sessions: an error of the callback is lost".into(), "accepted".into()));
                    }
                    self.mon.count("expirations that failed", 1);
                } else {
                    self.ok(&op, res)?;
                    let mut got: Vec<String> = seen.iter().map(|s| js(s).to_string()).collect();
                    let mut w: Vec<String> = want.iter().map(|s| s.to_string()).collect();
                    got.sort();
                    w.sort();
                    if got != w {
                        return Err(Dev(&["M01", "M05"], "expire sessions: visits other sessions".into(), format!("{got:?}, must be {w:?}")));
                    }
                    for s in seen {
                        if s.created_at < at {
                            self.model.remove(&format!("{p}|session {}", s.user_id));
                        }
                    }
                }
                Ok((ps, op))
            }
            6 => {
                op = "create backup".to_string();
                let req = CreateBackupRequest { provider: provider(r), password: if r.bool() { Some(text(r)) } else { None }, is_encrypted: r.bool(), status: status(r) };
                let idle = self.model.iter().any(|(k, v)| k.starts_with("*|backup ") && v["status"] == "Idle");
                let res = guarded(|| self.e.md.backups.create(req.clone()));
                if idle && req.status == Status::Idle {
                    self.refused(&op, "AlreadyExists", res)?;
                } else {
                    let b = self.ok(&op, res)?;
                    if b.provider != req.provider || b.password != req.password || b.is_encrypted != req.is_encrypted || b.status != req.status {
                        return Err(Dev(&["M01"], "create backup: returns something else".into(), format!("{b:?}")));
                    }
                    if !self.known.backups.insert(b.id) {
                        return Err(Dev(&["M03"], "backup id given twice".into(), b.id.to_string()));
                    }
                    self.model.insert(format!("*|backup {}", b.id), js(&b));
                    self.list_backups();
                }
                Ok(("*".into(), op))
            }
            7 => {
                op = "update backup".to_string();
                let id = 1 + r.below(self.known.backups.len() + 2) as u64;
                let st = status(r);
                let k = format!("*|backup {id}");
                let res = guarded(|| self.e.md.backups.update_status(id, st.clone()));
                match self.model.get_mut(&k) {
                    None => self.refused(&op, "NotFound", res)?,
                    Some(_) => {
                        self.ok(&op, res)?;
                        let b = self.ok(&op, guarded(|| self.e.md.backups.get_by_id(id)))?;
                        let m = self.model.get_mut(&k).unwrap();
                        m["status"] = js(&st);
                        let t = b.updated_at.map(|t| (chrono::Utc::now() - t).num_seconds().abs() > 5).unwrap_or(true);
                        if t {
                            return Err(Dev(&["M01"], "update backup: no time of the update".into(), format!("{b:?}")));
                        }
                        m["updated_at"] = js(&b)["updated_at"].clone();
                    }
                }
                Ok(("*".into(), op))
            }
            8 => {
                op = "delete backup".to_string();
                let id = 1 + r.below(self.known.backups.len() + 2) as u64;
                let res = guarded(|| self.e.md.backups.delete(id));
                match self.model.remove(&format!("*|backup {id}")) {
                    None => self.refused(&op, "NotFound", res)?,
                    Some(_) => self.ok(&op, res)?,
                }
                self.list_backups();
                Ok(("*".into(), op))
            }
            9 => {
                op = "save settings".to_string();
                let s = settings(r);
                let res = guarded(|| self.e.md.settings.save(&s));
                if incomplete(&s) {
                    self.refused(&op, "BadRequest", res)?;
                } else {
                    self.ok(&op, res)?;
                    self.model.insert("*|settings".into(), json!(format!("{s:?}")));
                }
                Ok(("*".into(), op))
            }
            10 | 11 => {
                op = "group name".to_string();
                let name = r.pick(&["company", "comp", "user", "company/x", "a", "b", "c", "ü"]).to_string();
                let disp = text(r);
                let have = self.known.group_names.entry(p).or_default();
                let pos = have.iter().position(|x| *x == name);
                let res = guarded(|| self.e.md.groups.get_or_create_group(p, name.clone(), disp.clone()));
                let k = format!("{p}|groups");
                match pos {
                    Some(i) => {
                        let g = self.ok(&op, res)?;
                        if js(&g) != self.model[&k][i] {
                            return Err(Dev(&["M01"], "group name: another group returned".into(), format!("{g:?}")));
                        }
                    }
                    None if have.len() >= GROUPS_COUNT => {
                        self.refused(&op, "BadRequest", res)?;
                        self.mon.count("group limit reached", 1);
                    }
                    None => {
                        let n = have.len() as u64;
                        have.push(name.clone());
                        let g = self.ok(&op, res)?;
                        if g.id != n || g.name != name || g.display_name != disp {
                            return Err(Dev(&["M01"], "group name: other group made".into(), format!("{g:?}, must be number {n} {name} {disp}")));
                        }
                        self.model.get_mut(&k).unwrap().as_array_mut().unwrap().push(js(&g));
                    }
                }
                Ok((ps, op))
            }
            12 | 13 | 14 => {
                let g = *r.pick(&[0u64, 1, 10]);
                let key = r.pick(&self.known.keys).clone();
                let vals = values(r);
                let k = format!("{p}|{g}|{key}");
                let cur = self.known_values().get(&k).cloned();
                let kind = r.below(3);
                op = ["create_or_update group values", "get_or_create group values", "merge_with_anonymous"][kind].to_string();
                let an = r.pick(&self.known.keys).clone();
                let mo = &self.e.md.groups;
                let res = match kind {
                    0 => guarded(|| mo.create_or_update(p, g, &key, vals.clone())),
                    1 => guarded(|| mo.get_or_create(p, g, &key, vals.clone())),
                    _ => guarded(|| mo.merge_with_anonymous(p, g, &an, &key, vals.clone())),
                };
                let x = self.ok(&op, res)?;
                let mut want = cur.clone();
                match &mut want {
                    None => {
                        let anon = (p, g, an.clone());
                        let ids = self.known.ids.entry((p, g)).or_default();
                        match self.known.anon.get(&anon) {
                            Some(id) if kind == 2 => {
                                if x.id != *id {
                                    return Err(Dev(&["M01"], format!("{op}: loses the id of the anonymous user"), format!("{} instead of {id}", x.id)));
                                }
                            }
                            _ => {
                                if !ids.insert(x.id) {
                                    return Err(Dev(&["M03", "M05"], format!("{op}: id given twice"), x.id.to_string()));
                                }
                                if kind == 2 {
                                    self.known.anon.insert(anon, x.id);
                                }
                            }
                        }
                        want = Some((x.id, vals.clone()));
                    }
                    Some((_, vs)) if kind == 0 => {
                        for v in vals {
                            match vs.iter_mut().find(|o| o.property_id == v.property_id) {
                                Some(o) => *o = v,
                                None => vs.push(v),
                            }
                        }
                    }
                    _ => {}
                }
                let want = want.unwrap();
                let sorted = |v: &Vec<PropertyValue>| {
                    let mut v = v.clone();
                    v.sort_by_key(|x| x.property_id);
                    v
                };
                if x.id != want.0 || sorted(&x.values) != sorted(&want.1) {
                    return Err(Dev(&["M01", "M05"], format!("{op}: returns other values"), format!("{p}/{g}/{key}: {x:?}, must be {want:?}")));
                }
                GROUP_VALUES.with(|m| m.borrow_mut().insert(k, want));
                self.mon.count("group values compared", 1);
                Ok((ps, op))
            }
            15 => {
                op = "anonymous id".to_string();
                let g = *r.pick(&[0u64, 1, 10]);
                let key = r.pick(&self.known.keys).clone();
                let id = self.ok(&op, guarded(|| self.e.md.groups.get_or_create_anonymous_id(p, g, &key)))?;
                match self.known.anon.get(&(p, g, key.clone())) {
                    Some(o) if *o != id => return Err(Dev(&["M01", "M03", "M05"], "anonymous id changes".into(), format!("{p}/{g}/{key}: {o}, now {id}"))),
                    Some(_) => {}
                    None => {
                        if !self.known.ids.entry((p, g)).or_default().insert(id) {
                            return Err(Dev(&["M03", "M05"], "anonymous id: given twice".into(), id.to_string()));
                        }
                        self.known.anon.insert((p, g, key), id);
                    }
                }
                Ok((ps, op))
            }
            16 | 17 => {
                let o = if r.chance(1, 8) { 999 } else { *r.pick(&self.known.orgs) };
                let a = if r.chance(1, 8) { 999 } else { *r.pick(&self.known.accounts) };
                let ro = role(r);
                let kind = r.below(4).min(2);
                op = ["add member", "remove member", "change role of member"][kind].to_string();
                let os = &self.e.md.organizations;
                let res = match kind {
                    0 => guarded(|| os.add_member(o, a, ro.clone())),
                    1 => guarded(|| os.remove_member(o, a)),
                    _ => guarded(|| os.change_member_role(o, a, ro.clone())),
                };
                let (ok, ak) = (format!("*|organization {o}"), format!("*|account {a}"));
                let is = self.model.get(&ok).map(|m| m.get(a.to_string()).is_some()).unwrap_or(false);
                let both = o != 999 && a != 999;
                match (kind, is) {
                    _ if !both => self.refused(&op, "NotFound", res)?,
                    (0, true) => self.refused(&op, "AlreadyExists", res)?,
                    (1 | 2, false) => self.refused(&op, "NotFound", res)?,
                    _ => {
                        self.ok(&op, res)?;
                        for (k, id) in [(ok, a), (ak, o)] {
                            let m = self.model.get_mut(&k).unwrap().as_object_mut().unwrap();
                            if kind == 1 {
                                m.remove(&id.to_string());
                            } else {
                                m.insert(id.to_string(), js(&ro));
                            }
                        }
                    }
                }
                Ok(("*".into(), op))
            }
            _ => {
                let here: Vec<u64> = self.known.events.iter().filter(|x| x.0 == p).map(|x| x.1).collect();
                let id = if r.chance(1, 10) { 999 } else { *r.pick(&here) };
                let prop = *r.pick(&[1u64, 2, 10, u64::MAX]);
                let kind = r.below(5);
                op = ["attach event property", "attach user property", "detach event property", "detach user property", "attach properties"][kind].to_string();
                let ev = &self.e.md.events;
                let many: Vec<u64> = (0..r.below(4)).map(|_| *r.pick(&[1u64, 2, 10])).collect();
                let res = guarded(|| match kind {
                    0 => ev.attach_event_property(p, id, prop).map(|_| ()),
                    1 => ev.attach_user_property(p, id, prop).map(|_| ()),
                    2 => ev.detach_event_property(p, id, prop).map(|_| ()),
                    3 => ev.detach_user_property(p, id, prop).map(|_| ()),
                    _ => ev.try_attach_properties(p, id, many.clone()),
                });
                let k = format!("{p}|event {id}");
                let i = [0, 1, 0, 1, 0][kind];
                let had = self.model.get(&k).map(|m| m[i].as_array().unwrap().iter().any(|x| x == &json!(prop)));
                match (kind, had) {
                    (_, None) => self.refused(&op, "NotFound", res)?,
                    (0 | 1, Some(true)) => self.refused(&op, "AlreadyExists", res)?,
                    (2 | 3, Some(false)) => {
                        if !matches!(res, Ok(Err(_))) {
                            return Err(Dev(&["M01"], format!("{op}: accepted although not attached"), format!("{prop}")));
                        }
                    }
                    _ => {
                        self.ok(&op, res)?;
                        let l = self.model.get_mut(&k).unwrap()[i].as_array_mut().unwrap();
                        let add = if kind == 4 { many } else if kind < 2 { vec![prop] } else { vec![] };
                        for x in add {
                            if !l.iter().any(|y| y == &json!(x)) {
                                l.push(json!(x));
                            }
                        }
                        if kind == 2 || kind == 3 {
                            l.retain(|x| x != &json!(prop));
                        }
                    }
                }
                Ok((ps, op))
            }
        }
    }
    fn list_backups(&mut self) {
        let mut ids: Vec<u64> = self.model.keys().filter_map(|k| k.strip_prefix("*|backup ")).map(|x| x.parse().unwrap()).collect();
        ids.sort();
        self.model.insert("*|backups".into(), json!(ids));
    }
    fn known_values(&self) -> BTreeMap<String, (u64, Vec<PropertyValue>)> {
        GROUP_VALUES.with(|m| m.borrow().clone())
    }
}
thread_local! {
    static GROUP_VALUES: std::cell::RefCell<BTreeMap<String, (u64, Vec<PropertyValue>)>> = Default::default();
}

fn history(m: &mut Mon, seed: u64, id: &str) {
    let mut r = Rng::new(seed);
    GROUP_VALUES.with(|m| m.borrow_mut().clear());
    kinds::reset_pools();
    let e = Env::new();
    let mut known = Known::default();
    known.projects = if r.bool() { vec![1, 10, 11] } else { vec![2, 1, 100] };
    known.projects.truncate(1 + r.below(3));
    known.keys = ["u", "u1", "u10", "", "a/b", "ü", "keys/u"].iter().map(|x| x.to_string()).collect();
    let mut model = Model::new();
    for i in 0..3 {
        let a = e
            .md
            .accounts
            .create(metadata::accounts::CreateAccountRequest {
                created_by: 0,
                password_hash: "h".into(),
                email: format!("a{i}@x"),
                name: None,
                force_update_password: false,
                force_update_email: false,
                role: None,
                organizations: None,
                projects: None,
                teams: None,
            })
            .unwrap();
        known.accounts.push(a.id);
        model.insert(format!("*|account {}", a.id), json!({}));
    }
    for i in 0..2 {
        let owner = known.accounts[i];
        let o = e.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: owner, name: format!("o{i}") }).unwrap();
        known.orgs.push(o.id);
        model.insert(format!("*|organization {}", o.id), json!({ owner.to_string(): "Owner" }));
        let k = format!("*|account {owner}");
        let has = e.md.accounts.get_by_id(owner).unwrap();
        model.insert(k, json!(members_of(&js(&has)["organizations"])));
    }
    for p in &known.projects {
        model.insert(format!("{p}|groups"), json!([]));
        for i in 0..2 {
            let x = e
                .md
                .events
                .create(*p, CreateEventRequest {
                    created_by: 1,
                    tags: None,
                    name: format!("e{i}"),
                    display_name: None,
                    description: None,
                    status: metadata::events::Status::Enabled,
                    is_system: false,
                    event_properties: None,
                    user_properties: None,
                    custom_properties: None,
                })
                .unwrap();
            known.events.insert((*p, x.id));
            model.insert(format!("{p}|event {}", x.id), json!([[], [], format!("e{i}")]));
        }
    }
    model.insert("*|backups".into(), json!([]));
    let mut w = W { e, model, known, mon: m, log: vec![] };
    let mut go = || -> Res {
        w.compare("*", "set up")?;
        for _ in 0..40 + r.below(80) {
            let (scope, op) = w.step(&mut r)?;
            w.mon.observed(mon::hash_of(&op), true);
            w.log.push(format!("{scope}: {op}"));
            w.mon.count("operations on the other stores", 1);
            w.compare(&scope, &op)?;
            if r.chance(1, 25) {
                // close and reopen
                let dir = std::mem::replace(&mut w.e, Env::new());
                let old = std::mem::replace(&mut w.e, dir.reopen(false));
                old.discard();
                w.log.push("reopen".into());
                w.compare("*", "reopen")?;
            }
        }
        Ok(())
    };
    let res = go();
    if let Err(Dev(props, key, msg)) = res {
        if props.contains(&id) {
            let tail: Vec<String> = w.log.iter().rev().take(12).cloned().collect();
            w.mon.violation(&key, msg, json!({"seed": seed, "last operations, newest first": tail}));
        } else {
            w.mon.count("histories stopped by a deviation that is another property's", 1);
            if std::env::var("MON_DEBUG").is_ok() {
                eprintln!("{props:?} {key} {msg}");
            }
        }
    }
    w.e.discard();
}

pub fn run(m: &mut Mon, id: &str, q: usize, t: usize, qs: u64, ts: u64) {
    let n = m.n(q, t);
    let mut r = Rng::new(0x315C + mon::hash_of(&id));
    let end = m.elapsed() + std::time::Duration::from_secs(if m.thorough() { ts } else { qs });
    for _ in 0..n {
        if m.elapsed() > end || m.violated() {
            break;
        }
        let seed = r.next();
        history(m, seed, id);
        m.count("histories of the other stores", 1);
    }
}
