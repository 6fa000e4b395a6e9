//! Dictionaries: histories of first uses and lookups over several projects, tables and columns
//! against a map, reopened now and then; and concurrent first uses.

use std::collections::BTreeMap;

use metadata::error::MetadataError;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;

use crate::conc;
use crate::env::Env;

type Id = (u64, &'static str, &'static str);

fn word(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "a".repeat(1 << (4 + r.below(14))),
        2 => format!("{}é\u{0}\n", r.below(4)),
        3 => format!("keys/{}", 1 + r.below(4)),
        4 => format!("values/{}", r.below(4)),
        5 => format!("{}", r.below(6)),
        6 => "id_seq".into(),
        7 => r.string(),
        8 => format!("w{} ", r.below(4)),
        _ => format!("w{}", r.below(12)),
    }
}

fn history(m: &mut Mon, seed: u64) {
    let mut r = Rng::new(seed);
    let mut e = Env::new();
    let mut model: BTreeMap<Id, (BTreeMap<String, u64>, BTreeMap<u64, String>)> = BTreeMap::new();
    let mut ids: Vec<Id> = vec![];
    for p in [1u64, 10, 11] {
        for t in ["events", "event", "group_0"] {
            for c in ["event", "e_string_1", "e_string_10", "e"] {
                ids.push((p, t, c));
            }
        }
    }
    r.shuffle(&mut ids);
    ids.truncate(1 + r.below(5));
    let mut log: Vec<String> = vec![];
    let clip = |s: &str| s.chars().take(20).collect::<String>();
    for _ in 0..30 + r.below(150) {
        let id = *r.pick(&ids);
        let (p, t, c) = id;
        let d = e.md.dictionaries.clone();
        let mo = model.entry(id).or_default();
        let mut bad: Option<(String, String)> = None;
        match r.below(10) {
            0..=4 => {
                let w = word(&mut r);
                let res = guarded(|| d.get_key_or_create(p, t, c, &w));
                log.push(format!("get_key_or_create {id:?} {:?}: {res:?}", clip(&w)));
                m.observed((w.len().min(64), mo.0.contains_key(&w)), true);
                match res {
                    Ok(Ok(k)) => match mo.0.get(&w) {
                        Some(o) if *o != k => bad = Some(("dictionary: the key of a string changes".into(), format!("{o} then {k}"))),
                        Some(_) => m.count("strings used again", 1),
                        None => {
                            if let Some(o) = mo.1.get(&k) {
                                bad = Some(("dictionary: two strings share a key".into(), format!("{:?} and {:?}: {k}", clip(o), clip(&w))));
                            }
                            mo.0.insert(w.clone(), k);
                            mo.1.insert(k, w);
                            m.count("strings first used", 1);
                        }
                    },
                    Ok(Err(x)) => bad = Some(("dictionary: get_key_or_create fails".into(), x.to_string())),
                    Err(x) => bad = Some(("dictionary: get_key_or_create panics".into(), x)),
                }
            }
            5 | 6 => {
                let w = word(&mut r);
                let res = guarded(|| d.get_key(p, t, c, &w));
                let want = mo.0.get(&w);
                match res {
                    Ok(Ok(k)) if want == Some(&k) => {}
                    Ok(Err(MetadataError::NotFound(_))) if want.is_none() => {}
                    x => bad = Some(("dictionary: get_key is wrong".into(), format!("{:?}: {x:?}, must be {want:?}", clip(&w)))),
                }
                m.count("lookups", 1);
            }
            7 | 8 => {
                let k = if r.chance(1, 20) { u64::MAX } else { r.below(mo.1.len() + 3) as u64 };
                let res = guarded(|| d.get_value(p, t, c, k));
                let want = mo.1.get(&k);
                match res {
                    Ok(Ok(v)) if want == Some(&v) => {}
                    Ok(Err(MetadataError::NotFound(_))) if want.is_none() => {}
                    x => bad = Some(("dictionary: get_value is wrong".into(), format!("{k}: {x:?}, must be {want:?}"))),
                }
                m.count("lookups", 1);
            }
            _ => {
                // the provider queries use
                let sp = metadata::dictionaries::SingleDictionaryProvider::new(p, t.to_string(), c.to_string(), d.clone());
                for (w, k) in mo.0.iter().take(20) {
                    if sp.get_key(p, c, w).ok() != Some(*k) || sp.get_value(*k).ok().as_ref() != Some(w) {
                        bad = Some(("dictionary: the provider of one dictionary disagrees with it".into(), format!("{:?} {k}", clip(w))));
                    }
                }
                m.count("lookups", mo.0.len() as u64);
            }
        }
        if let Some((k, w)) = bad {
            let tail: Vec<&String> = log.iter().rev().take(12).collect();
            m.violation(&k, w, json!({"seed": seed, "last operations, newest first": tail}));
            break;
        }
        if r.chance(1, 60) {
            drop(d);
            e = e.reopen(false);
            m.count("reopened", 1);
        }
    }
    // everything once more
    for ((p, t, c), mo) in &model {
        for (w, k) in &mo.0 {
            let d = &e.md.dictionaries;
            m.check(d.get_key(*p, t, c, w).ok() == Some(*k) && d.get_value(*p, t, c, *k).ok().as_ref() == Some(w), "dictionary: an entry differs at the end", || format!("{p} {t} {c} {:?} {k}", clip(w)));
        }
    }
    m.count("histories", 1);
    e.discard();
}

pub fn m07(m: &mut Mon) {
    m.rule("each string of a project, table and column has one key for ever, no two share one, both directions of lookup agree");
    let mut r = Rng::new(0x0707);
    let n = m.n(1500, 50000);
    for _ in 0..n {
        if !m.within(40, 900) || m.violated() {
            break;
        }
        history(m, r.next());
    }
    rocksdb::set_lock_timeout_ms(150);
    let n = m.n(1000, 30000);
    let end = m.elapsed() + std::time::Duration::from_secs(if m.thorough() { 900 } else { 40 });
    for _ in 0..n {
        if m.elapsed() > end || m.violated() {
            break;
        }
        let mut out = vec![];
        let mut rr = r.fork();
        conc::sequences(m, &mut rr, &mut out, Some(2));
        for (props, key, msg) in out {
            if props.contains(&"M07") {
                m.violation(&key, msg, json!({"concurrent": true}));
            }
        }
    }
    m.require("strings first used", 500);
    m.require("lookups", 500);
    m.require("dictionary words used concurrently", 100);
}
