//! Random histories over every entity kind, compared operation by operation with a plain model.
//!
//! The model of a scope (a kind within a project or organisation) is the map of its live
//! entities. It predicts the outcome of every operation; after each one the state behind every
//! lookup is compared. Each deviation carries the properties it breaks, so that the four checks
//! that share this engine report their own ones.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::atomic::AtomicI64;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use metadata::error::MetadataError;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value;

use crate::env::Env;
use crate::kinds::*;

#[derive(Default)]
struct Coll {
    live: BTreeMap<u64, Obj>,
    ever: BTreeSet<u64>,
    /// (unique field, value) pairs ever used
    keys: BTreeSet<(&'static str, String)>,
}

struct Dev {
    props: &'static [&'static str],
    key: String,
    msg: String,
}
type Res<T> = Result<T, Dev>;
fn dev<T>(props: &'static [&'static str], key: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Dev { props, key: key.into(), msg: msg.into() })
}

struct World<'a> {
    env: Option<Env>,
    kinds: Vec<Box<dyn Kind>>,
    scopes: Vec<u64>,
    names: Vec<String>,
    colls: BTreeMap<(usize, u64), Coll>,
    mon: &'a mut Mon,
    log: Vec<String>,
    faults: bool,
}

pub fn err_class(e: &MetadataError) -> &'static str {
    match e {
        MetadataError::AlreadyExists(_) => "AlreadyExists",
        MetadataError::NotFound(_) => "NotFound",
        MetadataError::BadRequest(_) => "BadRequest",
        MetadataError::RocksDb(_) => "RocksDb",
        _ => "other error",
    }
}
fn diff(want: &Obj, got: &Obj) -> Option<String> {
    let mut out = vec![];
    for k in want.keys().chain(got.keys().filter(|k| !want.contains_key(*k))) {
        if k == "updated_at" {
            // set on update; only its presence is promised
            if want.get(k).map(Value::is_null) != got.get(k).map(Value::is_null) {
                out.push(format!("{k}: want {:?}, got {:?}", want.get(k), got.get(k)));
            }
            continue;
        }
        let w = want.get(k).unwrap_or(&Value::Null);
        let x = got.get(k).unwrap_or(&Value::Null);
        if w != x {
            out.push(format!("{k}: want {w}, got {x}"));
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("; "))
    }
}
fn first_field(d: &str) -> &str {
    d.split(':').next().unwrap_or("")
}

impl World<'_> {
    fn env(&self) -> &Env {
        self.env.as_ref().unwrap()
    }
    fn scope_of(&self, k: usize, s: u64) -> u64 {
        if self.kinds[k].global() {
            0
        } else {
            s
        }
    }
    fn gen_all(&self, r: &mut Rng, k: usize, s: u64) -> Obj {
        let kd = &self.kinds[k];
        kd.fields().iter().map(|f| (f.to_string(), kd.gen(r, &self.names, f, s))).collect()
    }
    fn conflict(&self, k: usize, s: u64, f: &Obj, but: Option<u64>) -> Option<&'static str> {
        let c = self.colls.get(&(k, s))?;
        for u in self.kinds[k].unique() {
            if let Some(Value::String(v)) = f.get(*u) {
                if c.live.iter().any(|(id, x)| Some(*id) != but && x.get(*u).and_then(Value::as_str) == Some(v)) {
                    return Some(u);
                }
            }
        }
        None
    }
    /// everything the API shows of one scope against its model
    fn verify(&mut self, k: usize, s: u64, touched: bool) -> Res<()> {
        let kd = &self.kinds[k];
        let n = kd.name();
        // what is wrong in a scope that nothing was done to is a leak between scopes
        let m01: &[&str] = if touched { &["M01"] } else { &["M05"] };
        let m02: &[&str] = if touched { &["M01", "M02"] } else { &["M05"] };
        let m04: &[&str] = if touched { &["M04", "M01", "M02"] } else { &["M05"] };
        let empty = Coll::default();
        let c = self.colls.get(&(k, s)).unwrap_or(&empty);
        let env = self.env.as_ref().unwrap();
        let list = match guarded(|| kd.list(env, s)) {
            Err(p) => return dev(m01, format!("{n}: list panics"), p),
            Ok(Err(e)) => return dev(m01, format!("{n}: list fails"), e.to_string()),
            Ok(Ok(l)) => l,
        };
        let mut seen = BTreeSet::new();
        for x in &list {
            let id = x["id"].as_u64().unwrap();
            if !seen.insert(id) {
                return dev(m01, format!("{n}: listed twice"), format!("id {id} in scope {s}"));
            }
            match c.live.get(&id) {
                None if c.ever.contains(&id) => return dev(m04, format!("{n}: deleted entity still listed"), format!("id {id} in scope {s}")),
                None => return dev(if touched { &["M01", "M04", "M05"] } else { &["M05"] }, format!("{n}: unknown entity listed"), format!("id {id} in scope {s}: {x:?}")),
                Some(w) => {
                    if let Some(d) = diff(w, x) {
                        return dev(m01, format!("{n}: list shows wrong {}", first_field(&d)), d);
                    }
                }
            }
        }
        for (id, w) in &c.live {
            if !seen.contains(id) {
                return dev(m01, format!("{n}: missing from list"), format!("id {id} in scope {s}; listed {seen:?}"));
            }
            match guarded(|| kd.get(env, s, *id)) {
                Ok(Ok(x)) => {
                    if let Some(d) = diff(w, &x) {
                        return dev(m01, format!("{n}: read back with wrong {}", first_field(&d)), format!("id {id}: {d}"));
                    }
                }
                Ok(Err(e)) => return dev(m01, format!("{n}: cannot be read back"), format!("id {id}: {e}")),
                Err(p) => return dev(m01, format!("{n}: reading back panics"), p),
            }
        }
        for id in c.ever.iter().chain(&[c.ever.iter().max().unwrap_or(&0) + 1]) {
            if !c.live.contains_key(id) {
                match guarded(|| kd.get(env, s, *id)) {
                    Ok(Err(MetadataError::NotFound(_))) => {}
                    Ok(Err(e)) => return dev(m04, format!("{n}: reading a missing entity fails with {}", err_class(&e)), e.to_string()),
                    Ok(Ok(x)) => return dev(m04, format!("{n}: deleted or unknown entity still readable"), format!("id {id} in scope {s}: {x:?}")),
                    Err(p) => return dev(m04, format!("{n}: reading a missing entity panics"), p),
                }
            }
        }
        for (f, v) in &c.keys {
            let want = c.live.iter().find(|(_, x)| x.get(*f).and_then(Value::as_str) == Some(v));
            match (guarded(|| kd.lookup(env, s, f, v)), want) {
                (Ok(None), _) => break,
                (Err(p), _) => return dev(m02, format!("{n}: lookup by {f} panics"), p),
                (Ok(Some(Ok(x))), Some((id, w))) => {
                    if x["id"] != json!(id) {
                        return dev(m02, format!("{n}: lookup by {f} finds another entity"), format!("{v:?}: want {id}, got {}", x["id"]));
                    }
                    if let Some(d) = diff(w, &x) {
                        return dev(m01, format!("{n}: lookup by {f} shows wrong {}", first_field(&d)), d);
                    }
                }
                (Ok(Some(Ok(x))), None) => {
                    let p: &[&str] = if touched { &["M02", "M04"] } else { &["M05"] };
                    return dev(p, format!("{n}: lookup by {f} finds an entity that does not have it"), format!("{v:?} -> {x:?}"));
                }
                (Ok(Some(Err(MetadataError::NotFound(_)))), None) => {}
                (Ok(Some(Err(e))), Some((id, _))) => return dev(m02, format!("{n}: lookup by {f} misses"), format!("{v:?} of {id} in scope {s}: {e}")),
                (Ok(Some(Err(e))), None) => return dev(m02, format!("{n}: lookup of a missing {f} fails with {}", err_class(&e)), e.to_string()),
            }
            self.mon.count("lookups compared", 1);
        }
        self.mon.count("scopes compared", 1);
        self.mon.count("entities compared", c.live.len() as u64);
        Ok(())
    }
    fn after_create(&mut self, k: usize, s: u64, f: &Obj, x: Obj, how: &str) -> Res<()> {
        let n = self.kinds[k].name();
        let fields = self.kinds[k].fields();
        let unique = self.kinds[k].unique();
        let id = x["id"].as_u64().unwrap();
        for fd in fields {
            let mut want = f[*fd].clone();
            norm(&mut want);
            if x.get(*fd).unwrap_or(&Value::Null) != &want {
                return dev(&["M01"], format!("{n}: {how} returns wrong {fd}"), format!("want {want}, got {:?}", x.get(*fd)));
            }
        }
        for fd in ["updated_at", "updated_by"] {
            if !x.get(fd).unwrap_or(&Value::Null).is_null() {
                return dev(&["M01"], format!("{n}: {how} returns {fd} set"), String::new());
            }
        }
        if !self.kinds[k].global() && n != "team" && x.get("project_id") != Some(&json!(s)) {
            return dev(&["M01", "M05"], format!("{n}: {how} returns wrong project_id"), format!("{:?}", x.get("project_id")));
        }
        let c = self.colls.entry((k, s)).or_default();
        if !c.ever.insert(id) {
            return dev(&["M03", "M01"], format!("{n}: id used again"), format!("id {id} in scope {s}"));
        }
        for u in unique {
            if let Some(Value::String(v)) = f.get(*u) {
                c.keys.insert((u, v.clone()));
            }
        }
        c.live.insert(id, x);
        Ok(())
    }
    /// one random operation on a scope
    fn step(&mut self, r: &mut Rng) -> Res<()> {
        let k = r.below(self.kinds.len());
        let sc = *r.pick(&self.scopes);
        let s = self.scope_of(k, sc);
        let n = self.kinds[k].name();
        let live: Vec<u64> = self.colls.get(&(k, s)).map(|c| c.live.keys().copied().collect()).unwrap_or_default();
        let before = self.env().kv.dump();
        // storage failure at the i-th access of this operation
        let fault = self.faults && r.chance(1, 3);
        let left = Arc::new(AtomicI64::new(if fault { r.below(9) as i64 } else { i64::MAX }));
        let hit = Arc::new(AtomicI64::new(0));
        let arm = |left: &Arc<AtomicI64>, hit: &Arc<AtomicI64>| {
            if fault {
                let (l, h) = (left.clone(), hit.clone());
                rocksdb::hook::set(Some(Box::new(move |_, _| {
                    let f = l.fetch_sub(1, Ordering::SeqCst) == 0;
                    if f {
                        h.store(1, Ordering::SeqCst);
                    }
                    f
                })));
            }
        };
        let disarm = || rocksdb::hook::set(None);
        let what = r.below(20);
        let outcome: Res<&'static str> = if what < 9 || live.is_empty() && what < 17 {
            // create, or get_or_create where there is one
            let mut f = self.gen_all(r, k, s);
            if r.chance(1, 3) {
                // most creations should succeed: take unused keys
                for u in self.kinds[k].unique() {
                    if f[*u].is_string() {
                        f.insert(u.to_string(), json!(format!("{}#{}", f[*u].as_str().unwrap(), r.below(1 << 30))));
                    }
                }
            }
            let conflict = self.conflict(k, s, &f, None);
            let goc = r.chance(1, 3);
            let env = self.env.as_ref().unwrap();
            arm(&left, &hit);
            let res = guarded(|| {
                if goc {
                    if let Some(x) = self.kinds[k].get_or_create(env, s, &f) {
                        return (true, x);
                    }
                }
                (false, self.kinds[k].create(env, s, &f))
            });
            disarm();
            self.log.push(format!("create{} {n} in {s}: {}", if goc { " (get or create)" } else { "" }, Value::Object(f.clone())));
            match res {
                Err(p) if hit.load(Ordering::SeqCst) == 1 => {
                    self.mon.sample(|| json!({"panic under fault": p}));
                    self.unchanged(&before, &format!("{n}: create that panics on a storage failure"), k, s).map(|_| "panic under fault")
                }
                Err(p) => dev(&["M01"], format!("{n}: create panics"), p),
                Ok((got_or, Ok(x))) => {
                    if hit.load(Ordering::SeqCst) == 1 {
                        dev(&["M04"], format!("{n}: create reports success although storage failed"), String::new())
                    } else {
                        let same_name = got_or.then(|| self.colls.get(&(k, s)).and_then(|c| c.live.iter().find(|(_, y)| y.get("name") == f.get("name")).map(|(id, y)| (*id, y.clone())))).flatten();
                        match (same_name, conflict) {
                            (Some((id, y)), _) => match diff(&y, &x) {
                                Some(d) => dev(&["M01", "M02"], format!("{n}: get_or_create does not give the existing one"), format!("id {id}: {d}")),
                                None => self.unchanged(&before, &format!("{n}: get_or_create of an existing one"), k, s).map(|_| "got existing"),
                            },
                            (None, Some(u)) => dev(&["M02"], format!("{n}: duplicate {u} accepted by create"), format!("{:?}", f.get(u))),
                            (None, None) => self.after_create(k, s, &f, x, "create").map(|_| "created"),
                        }
                    }
                }
                Ok((_, Err(e))) => {
                    let cl = err_class(&e);
                    if hit.load(Ordering::SeqCst) == 1 {
                        self.unchanged(&before, &format!("{n}: create that fails on a storage failure"), k, s).map(|_| "create failed by fault")
                    } else if conflict.is_some() && cl == "AlreadyExists" {
                        self.unchanged(&before, &format!("{n}: refused create"), k, s).map(|_| "create refused")
                    } else if conflict.is_some() {
                        dev(&["M02"], format!("{n}: duplicate create fails with {cl}"), e.to_string())
                    } else {
                        dev(if cl == "AlreadyExists" { &["M02", "M04"] } else { &["M01"] }, format!("{n}: create fails with {cl}"), e.to_string())
                    }
                }
            }
        } else if what < 15 {
            // update of some of the fields
            let missing = live.is_empty() || r.chance(1, 12);
            let id = if missing { self.dead_id(r, k, s) } else { *r.pick(&live) };
            let mut f = Obj::new();
            let up = self.kinds[k].updatable();
            for fd in up {
                if r.chance(2, up.len() as u32 + 1) {
                    f.insert(fd.to_string(), self.kinds[k].gen(r, &self.names, fd, s));
                }
            }
            if n == "event" && id == 1 {
                f.remove("name");
            }
            // sometimes exactly the value it has already
            if !missing && r.chance(1, 4) {
                for u in self.kinds[k].unique() {
                    if f.contains_key(*u) {
                        f.insert(u.to_string(), self.colls[&(k, s)].live[&id][*u].clone());
                    }
                }
            }
            let by = r.next() >> 20;
            let conflict = self.conflict(k, s, &f, Some(id));
            let env = self.env.as_ref().unwrap();
            arm(&left, &hit);
            let res = guarded(|| self.kinds[k].update(env, s, id, by, &f));
            disarm();
            self.log.push(format!("update {n} {id} in {s}: {}", Value::Object(f.clone())));
            match res {
                Err(_) if hit.load(Ordering::SeqCst) == 1 => self.unchanged(&before, &format!("{n}: update that panics on a storage failure"), k, s).map(|_| "panic under fault"),
                Err(p) => dev(&["M01"], format!("{n}: update panics"), p),
                Ok(Ok(_)) if hit.load(Ordering::SeqCst) == 1 => dev(&["M04"], format!("{n}: update reports success although storage failed"), String::new()),
                Ok(Ok(x)) => {
                    if missing {
                        dev(&["M04"], format!("{n}: update of a missing entity accepted"), format!("id {id}"))
                    } else if let Some(u) = conflict {
                        dev(&["M02"], format!("{n}: duplicate {u} accepted by update"), format!("id {id}: {:?}", f.get(u)))
                    } else {
                        let unique = self.kinds[k].unique();
                        let c = self.colls.get_mut(&(k, s)).unwrap();
                        let mut w = c.live[&id].clone();
                        for (fk, fv) in &f {
                            let mut v = fv.clone();
                            norm(&mut v);
                            w.insert(fk.clone(), v);
                        }
                        w.insert("updated_by".into(), json!(by));
                        w.insert("updated_at".into(), json!("set"));
                        match diff(&w, &x) {
                            Some(d) => dev(&["M01"], format!("{n}: update returns wrong {}", first_field(&d)), d),
                            None => {
                                for u in unique {
                                    if let Some(Value::String(v)) = f.get(*u) {
                                        c.keys.insert((u, v.clone()));
                                    }
                                }
                                c.live.insert(id, w);
                                Ok("updated")
                            }
                        }
                    }
                }
                Ok(Err(e)) => {
                    let cl = err_class(&e);
                    if hit.load(Ordering::SeqCst) == 1 {
                        self.unchanged(&before, &format!("{n}: update that fails on a storage failure"), k, s).map(|_| "update failed by fault")
                    } else if missing && cl == "NotFound" {
                        self.unchanged(&before, &format!("{n}: update of a missing entity"), k, s).map(|_| "update of missing refused")
                    } else if !missing && conflict.is_some() && cl == "AlreadyExists" {
                        self.unchanged(&before, &format!("{n}: refused update"), k, s).map(|_| "update refused")
                    } else {
                        dev(if cl == "AlreadyExists" { &["M02", "M04"] } else { &["M01", "M02"] }, format!("{n}: update fails with {cl}"), format!("id {id}, missing {missing}, conflict {conflict:?}: {e}"))
                    }
                }
            }
        } else if what < 19 {
            let missing = live.is_empty() || r.chance(1, 6);
            let id = if missing { self.dead_id(r, k, s) } else { *r.pick(&live) };
            let env = self.env.as_ref().unwrap();
            // the event all custom events are made of stays
            if n == "event" && self.colls.get(&(k, s)).and_then(|c| c.live.get(&id)).is_some_and(|x| x["id"] == json!(1)) {
                return Ok(());
            }
            arm(&left, &hit);
            let res = guarded(|| self.kinds[k].delete(env, s, id));
            disarm();
            self.log.push(format!("delete {n} {id} in {s}"));
            match res {
                Err(_) if hit.load(Ordering::SeqCst) == 1 => self.unchanged(&before, &format!("{n}: delete that panics on a storage failure"), k, s).map(|_| "panic under fault"),
                Err(p) => dev(&["M04"], format!("{n}: delete panics"), p),
                Ok(Ok(_)) if hit.load(Ordering::SeqCst) == 1 => dev(&["M04"], format!("{n}: delete reports success although storage failed"), String::new()),
                Ok(Ok(x)) => {
                    if missing {
                        dev(&["M04"], format!("{n}: delete of a missing entity accepted"), format!("id {id}"))
                    } else {
                        let w = self.colls.get_mut(&(k, s)).unwrap().live.remove(&id).unwrap();
                        match diff(&w, &x) {
                            Some(d) => dev(&["M01"], format!("{n}: delete returns wrong {}", first_field(&d)), d),
                            None => Ok("deleted"),
                        }
                    }
                }
                Ok(Err(e)) => {
                    let cl = err_class(&e);
                    if hit.load(Ordering::SeqCst) == 1 {
                        self.unchanged(&before, &format!("{n}: delete that fails on a storage failure"), k, s).map(|_| "delete failed by fault")
                    } else if missing && cl == "NotFound" {
                        self.unchanged(&before, &format!("{n}: delete of a missing entity"), k, s).map(|_| "delete of missing refused")
                    } else {
                        dev(&["M04"], format!("{n}: delete fails with {cl}"), format!("id {id}: {e}"))
                    }
                }
            }
        } else {
            self.env = Some(self.env.take().unwrap().reopen(r.chance(1, 40)));
            self.log.push("reopen".into());
            if self.env().kv.dump() != before {
                return dev(&["M01"], "reopening changes what is stored", "");
            }
            Ok("reopened")
        };
        let what = outcome?;
        self.mon.count(what, 1);
        self.mon.observed((n, what, live.len().min(6), s), what != "got existing");
        if r.chance(1, 3) || what == "reopened" {
            for (kk, ss) in self.colls.keys().copied().collect::<Vec<_>>() {
                self.verify(kk, ss, (kk, ss) == (k, s) || self.kinds[kk].global())?;
            }
        } else {
            self.verify(k, s, true)?;
            // and one other scope of the same kind
            let o = self.scope_of(k, *r.pick(&self.scopes));
            if o != s {
                self.verify(k, o, false)?;
            }
        }
        Ok(())
    }
    fn dead_id(&self, r: &mut Rng, k: usize, s: u64) -> u64 {
        let c = self.colls.get(&(k, s));
        let mut c2: Vec<u64> = c.map(|c| c.ever.iter().filter(|i| !c.live.contains_key(*i)).copied().collect()).unwrap_or_default();
        c2.push(c.and_then(|c| c.ever.iter().max().copied()).unwrap_or(0) + 1 + r.below(3) as u64);
        *r.pick(&c2)
    }
    fn unchanged(&mut self, before: &BTreeMap<Vec<u8>, Vec<u8>>, what: &str, _k: usize, _s: u64) -> Res<()> {
        let after = self.env().kv.dump();
        if &after != before {
            let mut d = vec![];
            for (k, v) in &after {
                if before.get(k) != Some(v) {
                    d.push(format!("{} now {:?}", String::from_utf8_lossy(k), String::from_utf8_lossy(v)));
                }
            }
            for k in before.keys() {
                if !after.contains_key(k) {
                    d.push(format!("{} gone", String::from_utf8_lossy(k)));
                }
            }
            // sequence numbers may be consumed by a failed operation
            if d.iter().all(|x| x.split(" now ").next().unwrap().ends_with("id_seq")) {
                return Ok(());
            }
            return dev(&["M04"], format!("{what} changes the store"), d.join("; "));
        }
        self.mon.count("failed operations checked for traces", 1);
        Ok(())
    }
}

fn history(m: &mut Mon, seed: u64, id: &str) {
    let mut r = Rng::new(seed);
    reset_pools();
    let t0 = std::time::Instant::now();
    let env = Env::new();
    let root = env
        .md
        .accounts
        .create(metadata::accounts::CreateAccountRequest {
            created_by: 0,
            password_hash: "h".into(),
            email: "root@root".into(),
            name: None,
            force_update_password: false,
            force_update_email: false,
            role: None,
            organizations: None,
            projects: None,
            teams: None,
        })
        .unwrap();
    let mut kinds: Vec<Box<dyn Kind>> = vec![
        Box::new(Orgs(root.id)),
        Box::new(Teams),
        Box::new(Projects),
        Box::new(Events),
        Box::new(Props(None)),
        Box::new(Props(Some(0))),
        Box::new(Props(Some(3))),
        Box::new(CustomEvents),
        Box::new(Dashboards),
        Box::new(Reports),
    ];
    let orgs = r.bool();
    if !orgs {
        // organisations write into their members' accounts, so they are not driven together
        kinds.remove(0);
        kinds.push(Box::new(Accounts));
    }
    // concentrate a history on a few kinds so that they grow state
    r.shuffle(&mut kinds);
    let with_custom = kinds.iter().take(4).any(|k| k.name() == "custom event");
    kinds.truncate(4);
    if with_custom && !kinds.iter().any(|k| k.name() == "event") {
        kinds.push(Box::new(Events));
    }
    let mut scopes = vec![1, 10, 11, 100, 2];
    r.shuffle(&mut scopes);
    scopes.truncate(1 + r.below(3));
    let mut names: Vec<String> = ["a", "b", "A", "a/b", "name/a", "", "1", "10", "ü", "x y ", "data/1", "id_seq"].iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    names.truncate(3 + r.below(6));
    let mut w = World { env: Some(env), kinds, scopes, names, colls: BTreeMap::new(), mon: m, log: vec![], faults: id == "M04" };
    // the event custom events refer to
    if let Some(ek) = w.kinds.iter().position(|k| k.name() == "event") {
        for s in w.scopes.clone() {
            let mut f = w.gen_all(&mut r, ek, s);
            f.insert("name".into(), json!("kept event"));
            let x = w.kinds[ek].create(w.env(), s, &f).unwrap();
            if let Err(d) = w.after_create(ek, s, &f, x, "create") {
                report(w.mon, id, d, &w.log, seed);
                return;
            }
        }
    }
    if let Some(ak) = w.kinds.iter().position(|k| k.name() == "account") {
        let c = w.colls.entry((ak, 0)).or_default();
        c.ever.insert(root.id);
        c.live.insert(root.id, to_obj(&root));
        c.keys.insert(("email", "root@root".into()));
    }
    if std::env::var("MON_TIME").is_ok() {
        eprintln!("set up: {:?}", t0.elapsed());
    }
    let steps = 25 + r.below(60);
    for _ in 0..steps {
        let t1 = std::time::Instant::now();
        let st = w.step(&mut r);
        if std::env::var("MON_TIME").is_ok() && t1.elapsed().as_millis() > 100 {
            eprintln!("slow: {:?} {:?}", t1.elapsed(), w.log.last().map(|x| x.chars().take(40).collect::<String>()));
        }
        if let Err(d) = st {
            report(w.mon, id, d, &w.log, seed);
            break;
        }
    }
    rocksdb::hook::set(None);
    if std::env::var("MON_TIME").is_ok() {
        eprintln!("{steps} steps: {:?}", t0.elapsed());
    }
    w.mon.count("histories", 1);
    if let Some(e) = w.env.take() {
        e.discard();
    }
}
fn report(m: &mut Mon, id: &str, d: Dev, log: &[String], seed: u64) {
    if d.props.contains(&id) {
        let tail: Vec<&String> = log.iter().rev().take(12).collect();
        m.violation(&d.key, d.msg, json!({"seed": seed, "last operations, newest first": tail}));
    } else {
        m.count("histories stopped by a deviation that is another property's", 1);
        if std::env::var("MON_DEBUG").is_ok() {
            eprintln!("{:?} {} {}", d.props, d.key, d.msg);
        }
    }
}

pub fn run(m: &mut Mon, id: &str, q: usize, t: usize, qs: u64, ts: u64) {
    let n = m.n(q, t);
    let mut r = Rng::new(0xA11CE + mon::hash_of(&id));
    for _ in 0..n {
        if !m.within(qs, ts) {
            break;
        }
        let seed = r.next();
        history(m, seed, id);
    }
}
