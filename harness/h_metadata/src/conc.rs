//! Concurrent operations: the real store is driven by several threads while the key-value store
//! underneath stretches the time between its operations at random. What each thread was told and
//! what is left at the end must agree.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::sync::Barrier;
use std::time::Duration;

use metadata::error::MetadataError;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use serde_json::Value;

use crate::engine::err_class;
use crate::env::Env;
use crate::kinds::*;

/// stretch the time between the operations of a transaction
pub fn delays(seed: u64) -> Arc<AtomicU64> {
    let n = Arc::new(AtomicU64::new(seed));
    let c = n.clone();
    rocksdb::hook::set(Some(Box::new(move |_, _| {
        let x = c.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
        let h = (x ^ (x >> 31)).wrapping_mul(0xBF58476D1CE4E5B9);
        match (h >> 40) % 8 {
            0..=2 => {}
            3 | 4 => std::thread::yield_now(),
            k => std::thread::sleep(Duration::from_micros((k - 4) * 60 + (h >> 50) % 100)),
        }
        false
    })));
    n
}
pub fn no_delays() {
    rocksdb::hook::set(None);
}

/// run f in n threads at once
pub fn threads<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let b = Barrier::new(n);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (b, f) = (&b, &f);
                s.spawn(move || {
                    b.wait();
                    f(i)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    })
}
fn busy(e: &MetadataError) -> bool {
    matches!(e, MetadataError::RocksDb(_))
}

type Found = Vec<(&'static [&'static str], String, String)>;

fn kinds(root: u64) -> Vec<Box<dyn Kind + Sync>> {
    vec![
        Box::new(Accounts),
        Box::new(Orgs(root)),
        Box::new(Teams),
        Box::new(Projects),
        Box::new(Events),
        Box::new(Props(None)),
        Box::new(Props(Some(1))),
        Box::new(Dashboards),
    ]
}
fn gen_all(k: &dyn Kind, r: &mut Rng, names: &[String], s: u64) -> Obj {
    k.fields().iter().map(|f| (f.to_string(), k.gen(r, names, f, s))).collect()
}

/// no matter what happened: keys unique, everything listed readable and found by its keys
fn consistent(k: &dyn Kind, e: &Env, s: u64, out: &mut Found) -> BTreeMap<u64, Obj> {
    let n = k.name();
    let list = match guarded(|| k.list(e, s)) {
        Ok(Ok(l)) => l,
        Ok(Err(x)) => {
            out.push((&["M01"], format!("{n}: list fails after concurrent operations"), x.to_string()));
            vec![]
        }
        Err(x) => {
            out.push((&["M01"], format!("{n}: list panics after concurrent operations"), x));
            vec![]
        }
    };
    let mut m = BTreeMap::new();
    for x in list {
        let id = x["id"].as_u64().unwrap();
        for u in k.unique() {
            if let Some(Value::String(v)) = x.get(*u) {
                for (oid, o) in &m {
                    let o: &Obj = o;
                    if o.get(*u).and_then(Value::as_str) == Some(v) {
                        out.push((&["M02"], format!("{n}: two live entities share {u}"), format!("{v:?}: {oid} and {id}")));
                    }
                }
                match guarded(|| k.lookup(e, s, u, v)) {
                    Ok(None) => {}
                    Ok(Some(Ok(y))) if y["id"] == x["id"] => {}
                    Ok(Some(Ok(y))) => out.push((&["M02"], format!("{n}: lookup by {u} finds another one after concurrent operations"), format!("{v:?} of {id}: {}", y["id"]))),
                    Ok(Some(Err(e))) => out.push((&["M02"], format!("{n}: lookup by {u} misses after concurrent operations"), format!("{v:?} of {id}: {e}"))),
                    Err(p) => out.push((&["M02"], format!("{n}: lookup by {u} panics"), p)),
                }
            }
        }
        m.insert(id, x);
    }
    m
}

fn round(m: &mut Mon, r: &mut Rng, out: &mut Found) {
    let e = Env::new();
    let root = Accounts
        .create(&e, 0, &gen_all(&Accounts, &mut r.fork(), &["root".to_string()], 0))
        .unwrap()["id"]
        .as_u64()
        .unwrap();
    let ks = kinds(root);
    let k: &(dyn Kind + Sync) = ks[r.below(ks.len())].as_ref();
    let n = k.name();
    let s = if k.global() { 0 } else { *r.pick(&[1u64, 10]) };
    let t = 2 + r.below(4);
    let kind = r.below(5);
    let mut sig = 0u64;
    match kind {
        0 | 1 => {
            // creates, all with keys of their own or fighting for few
            let per = 2 + r.below(5);
            let clash = kind == 1;
            let reqs: Vec<Vec<Obj>> = (0..t)
                .map(|i| {
                    (0..per)
                        .map(|j| {
                            let names: Vec<String> = if clash { (0..2).map(|x| format!("n{x}-{j}")).collect() } else { vec![format!("t{i}-{j}")] };
                            gen_all(k, r, &names, s)
                        })
                        .collect()
                })
                .collect();
            let goc = r.chance(1, 3);
            delays(r.next());
            let res = threads(t, |i| {
                reqs[i]
                    .iter()
                    .map(|f| {
                        guarded(|| {
                            if goc {
                                if let Some(x) = k.get_or_create(&e, s, f) {
                                    return x;
                                }
                            }
                            k.create(&e, s, f)
                        })
                    })
                    .collect::<Vec<_>>()
            });
            no_delays();
            let live = consistent(k, &e, s, out);
            let mut ids = BTreeSet::new();
            if n == "account" {
                ids.insert(root);
            }
            let mut oks = 0;
            for (i, rs) in res.iter().enumerate() {
                for (j, x) in rs.iter().enumerate() {
                    let f = &reqs[i][j];
                    match x {
                        Err(p) => out.push((&["M02", "M03"], format!("{n}: concurrent create panics"), p.clone())),
                        Ok(Ok(x)) => {
                            oks += 1;
                            let id = x["id"].as_u64().unwrap();
                            sig = sig.wrapping_mul(31).wrapping_add(id);
                            // get_or_create may give two threads the same one
                            let same = goc && live.get(&id).is_some_and(|l| l.get("name") == f.get("name"));
                            if !ids.insert(id) && !same {
                                out.push((&["M03"], format!("{n}: two concurrent creates got the same id"), format!("id {id}, thread {i}")));
                            }
                            match live.get(&id) {
                                None => out.push((&["M03", "M01"], format!("{n}: created concurrently but not there"), format!("id {id}"))),
                                Some(l) => {
                                    if l.get("created_by") != f.get("created_by") && !same {
                                        out.push((&["M03", "M01"], format!("{n}: created concurrently but overwritten"), format!("id {id}")));
                                    }
                                }
                            }
                        }
                        Ok(Err(x)) if busy(x) => {
                            m.count("refused for a held lock", 1);
                        }
                        Ok(Err(MetadataError::AlreadyExists(_))) if clash => {
                            m.count("refused as duplicate", 1);
                        }
                        Ok(Err(x)) => out.push((&["M02", "M03"], format!("{n}: concurrent create fails with {}", err_class(x)), x.to_string())),
                    }
                }
            }
            if live.len() != ids.len() {
                out.push((&["M03", "M01"], format!("{n}: as many live as were created"), format!("live {:?}, told {ids:?}", live.keys())));
            }
            m.count("concurrent creates", oks);
        }
        2 => {
            // partial updates of the same entity, each thread one field of its own
            let f = gen_all(k, r, &["first".to_string()], s);
            let id = k.create(&e, s, &f).unwrap()["id"].as_u64().unwrap();
            let mut fs = k.updatable().to_vec();
            r.shuffle(&mut fs);
            fs.truncate(t);
            let t = fs.len();
            let ups: Vec<Obj> = fs
                .iter()
                .map(|fd| {
                    let mut o = Obj::new();
                    o.insert(fd.to_string(), k.gen(r, &["second".to_string()], fd, s));
                    o
                })
                .collect();
            delays(r.next());
            let res = threads(t, |i| guarded(|| k.update(&e, s, id, i as u64 + 1, &ups[i])));
            no_delays();
            let live = consistent(k, &e, s, out);
            for (i, x) in res.into_iter().enumerate() {
                match x {
                    Err(p) => out.push((&["M01"], format!("{n}: concurrent update panics"), p)),
                    Ok(Ok(_)) => {
                        m.count("concurrent updates", 1);
                        let mut w = ups[i][fs[i]].clone();
                        norm(&mut w);
                        let got = live.get(&id).and_then(|l| l.get(fs[i])).cloned().unwrap_or(Value::Null);
                        if got != w {
                            out.push((&["M01"], format!("{n}: one of several concurrent updates is lost"), format!("{}: want {w}, got {got}", fs[i])));
                        }
                    }
                    Ok(Err(x)) if busy(&x) => m.count("refused for a held lock", 1),
                    Ok(Err(x)) => out.push((&["M01"], format!("{n}: concurrent update fails with {}", err_class(&x)), x.to_string())),
                }
            }
        }
        3 => {
            // several entities try to take the same key
            if k.unique().is_empty() {
                return e.discard();
            }
            let u = *r.pick(k.unique());
            if !k.updatable().contains(&u) {
                return e.discard();
            }
            let ids: Vec<u64> = (0..t).map(|i| k.create(&e, s, &gen_all(k, r, &[format!("e{i}")], s)).unwrap()["id"].as_u64().unwrap()).collect();
            let mut f = Obj::new();
            f.insert(u.to_string(), json!("wanted"));
            delays(r.next());
            let res = threads(t, |i| guarded(|| k.update(&e, s, ids[i], 7, &f)));
            no_delays();
            let live = consistent(k, &e, s, out);
            let mut won = 0;
            for (i, x) in res.into_iter().enumerate() {
                match x {
                    Err(p) => out.push((&["M02"], format!("{n}: concurrent rename panics"), p)),
                    Ok(Ok(_)) => {
                        won += 1;
                        sig = i as u64;
                        if live[&ids[i]][u] != json!("wanted") {
                            out.push((&["M01", "M02"], format!("{n}: concurrent rename is lost"), String::new()));
                        }
                    }
                    Ok(Err(x)) if busy(&x) => m.count("refused for a held lock", 1),
                    Ok(Err(MetadataError::AlreadyExists(_))) => m.count("refused as duplicate", 1),
                    Ok(Err(x)) => out.push((&["M02"], format!("{n}: concurrent rename fails with {}", err_class(&x)), x.to_string())),
                }
            }
            if won > 1 {
                out.push((&["M02"], format!("{n}: {u} given to several by concurrent renames"), format!("{won}")));
            }
            m.count("concurrent renames", 1);
        }
        _ => {
            // updates against a delete
            let f = gen_all(k, r, &["first".to_string()], s);
            let id = k.create(&e, s, &f).unwrap()["id"].as_u64().unwrap();
            let mut up = Obj::new();
            let fd = *r.pick(k.updatable());
            up.insert(fd.to_string(), k.gen(r, &["second".to_string()], fd, s));
            delays(r.next());
            let res = threads(t, |i| {
                guarded(|| {
                    if i == 0 {
                        k.delete(&e, s, id).map(|_| ())
                    } else {
                        k.update(&e, s, id, 1, &up).map(|_| ())
                    }
                })
            });
            no_delays();
            let live = consistent(k, &e, s, out);
            match &res[0] {
                Ok(Ok(())) => {
                    m.count("concurrent deletes", 1);
                    if live.contains_key(&id) {
                        out.push((&["M04"], format!("{n}: deleted, but a concurrent update brought it back"), String::new()));
                    }
                    for (u, v) in [(fd, up.get(fd)), (fd, f.get(fd))] {
                        if let (true, Some(Value::String(v))) = (k.unique().contains(&u), v) {
                            if let Ok(Some(Ok(y))) = guarded(|| k.lookup(&e, s, u, v)) {
                                out.push((&["M04"], format!("{n}: deleted, but a concurrent update left its {u}"), format!("{}", y["id"])));
                            }
                            // the key must be free again
                            let mut g = gen_all(k, r, &["third".to_string()], s);
                            g.insert(u.to_string(), json!(v));
                            if let Ok(Err(x)) = guarded(|| k.create(&e, s, &g)) {
                                out.push((&["M04", "M02"], format!("{n}: {u} of a deleted one cannot be used again after a concurrent update"), x.to_string()));
                            }
                            break;
                        }
                    }
                }
                Ok(Err(x)) if busy(x) => m.count("refused for a held lock", 1),
                Ok(Err(x)) => out.push((&["M04"], format!("{n}: concurrent delete fails with {}", err_class(x)), x.to_string())),
                Err(p) => out.push((&["M04"], format!("{n}: concurrent delete panics"), p.clone())),
            }
            for x in &res[1..] {
                match x {
                    Err(p) => out.push((&["M04"], format!("{n}: update panics against a delete"), p.clone())),
                    Ok(Err(x)) if !busy(x) && err_class(x) != "NotFound" => out.push((&["M04"], format!("{n}: update against a delete fails with {}", err_class(x)), x.to_string())),
                    _ => {}
                }
            }
        }
    }
    m.observed((n, kind, t, sig), true);
    m.count("concurrent rounds", 1);
    e.discard();
}

/// sequences, counters and get-or-create calls
pub fn sequences(m: &mut Mon, r: &mut Rng, out: &mut Found, only: Option<usize>) {
    let e = Env::new();
    let t = 2 + r.below(4);
    let per = 3 + r.below(10);
    let p = *r.pick(&[1u64, 10]);
    match only.unwrap_or(r.below(5)) {
        0 => {
            let g = r.below(3) as u64;
            let ev = r.bool();
            delays(r.next());
            let res = threads(t, |_| (0..per).map(|_| if ev { e.md.events.next_record_sequence(p) } else { e.md.groups.next_record_sequence(p, g) }).collect::<Vec<_>>());
            no_delays();
            let mut all = BTreeSet::new();
            for rs in res {
                let mut last = 0;
                for x in rs {
                    match x {
                        Ok(x) => {
                            if !all.insert(x) {
                                out.push((&["M03"], "record sequence: a number given twice".into(), format!("{x}")));
                            }
                            if x <= last {
                                out.push((&["M03"], "record sequence: numbers do not grow".into(), format!("{x} after {last}")));
                            }
                            last = x;
                        }
                        Err(x) if busy(&x) => m.count("refused for a held lock", 1),
                        Err(x) => out.push((&["M03"], "record sequence fails".into(), x.to_string())),
                    }
                }
            }
            m.count("sequence numbers taken concurrently", all.len() as u64);
        }
        1 => {
            let f = gen_all(&Projects, r, &["p".to_string()], 0);
            let id = Projects.create(&e, 0, &f).unwrap()["id"].as_u64().unwrap();
            delays(r.next());
            let res = threads(t, |_| (0..per).filter(|_| e.md.projects.increment_events_counter(id).is_ok()).count());
            no_delays();
            let want: usize = res.iter().sum();
            let got = e.md.projects.get_by_id(id).unwrap().events_count;
            if got != want {
                out.push((&["M03"], "project: the counter of events loses concurrent increments".into(), format!("{want} increments, counter {got}")));
            }
            m.count("counter increments", want as u64);
        }
        2 => {
            // dictionary: every string one key, every key one string
            let words: Vec<String> = (0..4).map(|i| format!("w{i}")).collect();
            let tabs = [("events", "event"), ("events", "str_0")];
            let tab = *r.pick(&tabs);
            let seed = r.next();
            delays(r.next());
            let res = threads(t, |i| {
                let mut r = Rng::new(seed + i as u64);
                (0..per)
                    .map(|_| {
                        let w = r.pick(&words).clone();
                        let k = e.md.dictionaries.get_key_or_create(p, tab.0, tab.1, &w);
                        (w, k)
                    })
                    .collect::<Vec<_>>()
            });
            no_delays();
            let mut by: BTreeMap<String, u64> = BTreeMap::new();
            for (w, k) in res.into_iter().flatten() {
                match k {
                    Ok(k) => {
                        let o = *by.entry(w.clone()).or_insert(k);
                        if o != k {
                            out.push((&["M07"], "dictionary: a string gets two keys when first used concurrently".into(), format!("{w}: {o} and {k}")));
                        }
                    }
                    Err(x) if busy(&x) => m.count("refused for a held lock", 1),
                    Err(x) => out.push((&["M07"], "dictionary: get_key_or_create fails".into(), x.to_string())),
                }
            }
            let keys: BTreeSet<u64> = by.values().copied().collect();
            if keys.len() != by.len() {
                out.push((&["M07"], "dictionary: two strings share a key when first used concurrently".into(), format!("{by:?}")));
            }
            for (w, k) in &by {
                if e.md.dictionaries.get_value(p, tab.0, tab.1, *k).ok().as_ref() != Some(w) || e.md.dictionaries.get_key(p, tab.0, tab.1, w).ok() != Some(*k) {
                    out.push((&["M07"], "dictionary: the two directions disagree after concurrent use".into(), format!("{w} {k}")));
                }
            }
            m.count("dictionary words used concurrently", by.len() as u64);
        }
        3 => {
            // users and anonymous users of a group
            let g = r.below(2) as u64;
            let seed = r.next();
            delays(r.next());
            let res = threads(t, |i| {
                let mut r = Rng::new(seed + i as u64);
                (0..per)
                    .map(|_| {
                        let w = format!("u{}", r.below(3));
                        match r.below(3) {
                            0 => (format!("anonymous {w}"), e.md.groups.get_or_create_anonymous_id(p, g, &w)),
                            1 => (w.clone(), e.md.groups.get_or_create(p, g, &w, vec![]).map(|x| x.id)),
                            _ => (w.clone(), e.md.groups.create_or_update(p, g, &w, vec![]).map(|x| x.id)),
                        }
                    })
                    .collect::<Vec<_>>()
            });
            no_delays();
            let mut by: BTreeMap<String, u64> = BTreeMap::new();
            for (w, k) in res.into_iter().flatten() {
                match k {
                    Ok(k) => {
                        let o = *by.entry(w.clone()).or_insert(k);
                        if o != k {
                            out.push((&["M03"], "group: a user gets two ids when first seen concurrently".into(), format!("{w}: {o} and {k}")));
                        }
                    }
                    Err(x) if busy(&x) => m.count("refused for a held lock", 1),
                    Err(x) => out.push((&["M03"], "group: get_or_create fails".into(), x.to_string())),
                }
            }
            let keys: BTreeSet<u64> = by.values().copied().collect();
            if keys.len() != by.len() {
                out.push((&["M03"], "group: two users share an id when first seen concurrently".into(), format!("{by:?}")));
            }
            m.count("users first seen concurrently", by.len() as u64);
        }
        _ => {
            let seed = r.next();
            delays(r.next());
            let res = threads(t, |i| {
                let mut r = Rng::new(seed + i as u64);
                (0..per).map(|_| { let w = format!("g{}", r.below(3)); (w.clone(), e.md.groups.get_or_create_group(p, w.clone(), w)) }).collect::<Vec<_>>()
            });
            no_delays();
            let mut by: BTreeMap<String, u64> = BTreeMap::new();
            for (w, k) in res.into_iter().flatten() {
                match k {
                    Ok(k) => {
                        let o = *by.entry(w.clone()).or_insert(k.id);
                        if o != k.id {
                            out.push((&["M03"], "group type: gets two ids when first used concurrently".into(), format!("{w}: {o} and {}", k.id)));
                        }
                    }
                    Err(x) if busy(&x) => m.count("refused for a held lock", 1),
                    Err(x) => out.push((&["M03"], "group type: get_or_create_group fails".into(), x.to_string())),
                }
            }
            let keys: BTreeSet<u64> = by.values().copied().collect();
            if keys.len() != by.len() {
                out.push((&["M03"], "group type: two share an id when first used concurrently".into(), format!("{by:?}")));
            }
            m.count("group types first used concurrently", by.len() as u64);
        }
    }
    m.observed((t, per, p), true);
    e.discard();
}

pub fn run(m: &mut Mon, id: &str, q: usize, t: usize, qs: u64, ts: u64, what: (u32, u32)) {
    rocksdb::set_lock_timeout_ms(150);
    let n = m.n(q, t);
    let mut r = Rng::new(0xC0 + mon::hash_of(&id));
    let end = m.elapsed() + Duration::from_secs(if m.thorough() { ts } else { qs });
    for _ in 0..n {
        if m.elapsed() > end {
            break;
        }
        let mut out = vec![];
        let mut rr = r.fork();
        if rr.chance(what.0, what.1) {
            round(m, &mut rr, &mut out);
        } else {
            sequences(m, &mut rr, &mut out, None);
        }
        for (props, key, msg) in out {
            if props.contains(&id) {
                m.violation(&key, msg, json!({"concurrent": true}));
            } else if std::env::var("MON_DEBUG").is_ok() {
                eprintln!("{props:?} {key} {msg}");
            }
        }
        if m.violated() {
            break;
        }
    }
    no_delays();
    rocksdb::set_lock_timeout_ms(1000);
}
