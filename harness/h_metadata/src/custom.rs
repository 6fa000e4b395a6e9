//! Custom events as a graph: random creations, updates and deletions of events that contain each
//! other. What is stored is read back after every step and must be free of cycles and within the
//! nesting limit; what forms a tree within the limit must be accepted.

use std::collections::BTreeMap;
use std::sync::Arc;

use common::query::EventRef;
use common::types::OptionalProperty;
use metadata::custom_events::*;
use metadata::error::MetadataError;
use metadata::events::Events;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;

use crate::conc;
use crate::engine::err_class;
use crate::env::Env;

type Graph = BTreeMap<u64, Vec<EventRef>>;

fn customs(v: &[EventRef]) -> Vec<u64> {
    v.iter().filter_map(|x| if let EventRef::Custom(i) = x { Some(*i) } else { None }).collect()
}
/// number of levels of custom events below an event with these parts; None when a cycle is met
fn depth(g: &Graph, parts: &[EventRef], path: &mut Vec<u64>) -> Option<usize> {
    let mut d = 0;
    for c in customs(parts) {
        if path.contains(&c) {
            return None;
        }
        if let Some(p) = g.get(&c) {
            path.push(c);
            d = d.max(1 + depth(g, p, path)?);
            path.pop();
        } else {
            d = d.max(1);
        }
    }
    Some(d)
}
/// every custom event met when the parts are expanded, with repetitions
fn expand(g: &Graph, parts: &[EventRef], out: &mut Vec<u64>, left: usize) {
    if left == 0 {
        return;
    }
    for c in customs(parts) {
        out.push(c);
        if let Some(p) = g.get(&c) {
            expand(g, p, out, left - 1);
        }
    }
}
fn read(ce: &CustomEvents, p: u64) -> Result<Graph, String> {
    let l = ce.list(p).map_err(|e| e.to_string())?;
    Ok(l.data.into_iter().map(|x| (x.id, x.events.into_iter().map(|e| e.event).collect())).collect())
}
/// the invariant on what is stored
fn sound(g: &Graph, max: usize) -> Result<(), (&'static str, String)> {
    for (id, parts) in g {
        match depth(g, parts, &mut vec![*id]) {
            None => return Err(("custom events: a cycle is stored", format!("through {id}: {g:?}"))),
            Some(d) if d > max => return Err(("custom events: nested deeper than the limit", format!("{id} has {d} levels, limit {max}: {g:?}"))),
            _ => {}
        }
    }
    Ok(())
}
fn create(p: &[EventRef], name: String) -> CreateCustomEventRequest {
    // nothing but the parts may matter
    let off = name.len() % 2 == 0 || name.ends_with('7');
    CreateCustomEventRequest {
        created_by: 1,
        tags: None,
        name,
        description: None,
        status: if off { Status::Disabled } else { Status::Enabled },
        is_system: off,
        events: p.iter().map(|e| Event { event: e.clone(), filters: None }).collect(),
    }
}
fn update(p: &[EventRef]) -> UpdateCustomEventRequest {
    UpdateCustomEventRequest {
        updated_by: 2,
        events: OptionalProperty::Some(p.iter().map(|e| Event { event: e.clone(), filters: None }).collect()),
        ..Default::default()
    }
}

struct Setup {
    e: Env,
    ce: Arc<CustomEvents>,
    max: usize,
    events: Vec<(u64, String)>,
}
fn setup(r: &mut Rng, p: u64) -> Setup {
    let e = Env::new();
    let max = if r.bool() { MAX_EVENTS_LEVEL } else { r.below(6) };
    let ce = if max == MAX_EVENTS_LEVEL && r.bool() {
        e.md.custom_events.clone()
    } else {
        let ev = Arc::new(Events::new(e.kv.clone(), e.md.dictionaries.clone()));
        Arc::new(CustomEvents::new(e.kv.clone(), ev).with_max_events_level(max))
    };
    let mut events = vec![];
    for i in 0..2 {
        let x = e
            .md
            .events
            .create(p, metadata::events::CreateEventRequest {
                created_by: 1,
                tags: None,
                name: format!("e{i}"),
                display_name: None,
                description: None,
                status: metadata::events::Status::Enabled,
                is_system: false,
                event_properties: None,
                user_properties: None,
                custom_properties: None,
            })
            .unwrap();
        events.push((x.id, x.name));
    }
    Setup { e, ce, max, events }
}
fn parts(r: &mut Rng, s: &Setup, ids: &[u64], deep: bool) -> Vec<EventRef> {
    let n = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3, 4]);
    (0..n)
        .map(|_| {
            if !ids.is_empty() && r.chance(if deep { 4 } else { 2 }, 5) {
                // the newest ones more often: that makes chains
                let i = if deep { ids.len() - 1 - r.below(ids.len().min(3)) } else { r.below(ids.len()) };
                EventRef::Custom(ids[i])
            } else if r.chance(1, 15) {
                EventRef::Custom(9_999)
            } else if r.chance(1, 15) {
                EventRef::Regular(9_999)
            } else if r.chance(1, 15) {
                EventRef::RegularName("none".into())
            } else {
                let e = r.pick(&s.events);
                if r.bool() {
                    EventRef::Regular(e.0)
                } else {
                    EventRef::RegularName(e.1.clone())
                }
            }
        })
        .collect()
}
fn missing(s: &Setup, g: &Graph, p: &[EventRef]) -> bool {
    p.iter().any(|x| match x {
        EventRef::RegularName(n) => !s.events.iter().any(|e| e.1 == *n),
        EventRef::Regular(i) => !s.events.iter().any(|e| e.0 == *i),
        EventRef::Custom(i) => !g.contains_key(i),
    })
}

fn history(m: &mut Mon, seed: u64) {
    let mut r = Rng::new(seed);
    let p = *r.pick(&[1u64, 10]);
    let s = setup(&mut r, p);
    let mut g = Graph::new();
    let mut log = vec![format!("limit {}", s.max)];
    let mut ids: Vec<u64> = vec![];
    for step in 0..20 + r.below(40) {
        let del = r.chance(1, 15);
        let upd = !ids.is_empty() && r.chance(1, 2);
        if del && !ids.is_empty() {
            let id = *r.pick(&ids);
            let res = guarded(|| s.ce.delete(p, id));
            log.push(format!("delete {id}: {}", matches!(res, Ok(Ok(_)))));
            if g.remove(&id).is_some() {
                m.check(matches!(res, Ok(Ok(_))), "custom events: an existing one is not deleted", || format!("{id}, seed {seed}"));
            }
            ids.retain(|x| g.contains_key(x));
            continue;
        }
        let deep = r.chance(2, 3);
        let ps = parts(&mut r, &s, &ids, deep);
        let me = if upd { Some(*r.pick(&ids)) } else { None };
        let res = guarded(|| match me {
            Some(id) => s.ce.update(p, id, update(&ps)).map(|x| x.id),
            None => s.ce.create(p, create(&ps, format!("c{step}"))).map(|x| x.id),
        });
        let what = if upd { "update" } else { "create" };
        let res = match res {
            Ok(x) => x,
            Err(e) => {
                m.violation(&format!("custom events: {what} panics"), e, json!({"seed": seed, "log": log, "parts": format!("{ps:?}")}));
                break;
            }
        };
        log.push(format!("{what} {me:?} {ps:?}: {}", match &res {
            Ok(x) => format!("{x}"),
            Err(e) => err_class(e).to_string(),
        }));
        // what must happen
        let mut next = g.clone();
        let id = me.unwrap_or(u64::MAX);
        next.insert(id, ps.clone());
        let bad = sound(&next, s.max);
        let gone = missing(&s, &g, &ps);
        let mut ex = vec![];
        expand(&next, &ps, &mut ex, 12);
        let mut uniq = ex.clone();
        uniq.sort();
        uniq.dedup();
        let tree = uniq.len() == ex.len() && ex.iter().all(|c| g.contains_key(c) && !missing(&s, &g, &g[c]));
        let must_refuse = bad.is_err() || gone || ps.is_empty();
        match &res {
            Ok(x) => {
                if must_refuse {
                    let (k, w) = match &bad {
                        Err((k, w)) => (format!("{k} by {what}"), w.clone()),
                        _ if gone => (format!("custom events: {what} with an unknown part is accepted"), format!("{ps:?}")),
                        _ => (format!("custom events: {what} without parts is accepted"), String::new()),
                    };
                    m.violation(&k, w, json!({"seed": seed, "log": log}));
                    break;
                }
                if !upd {
                    ids.push(*x);
                }
                g.insert(*x, ps.clone());
                m.count("accepted", 1);
            }
            Err(e) => {
                if !must_refuse && tree {
                    m.violation(&format!("custom events: {what} of a tree within the limit is refused"), e.to_string(), json!({"seed": seed, "log": log}));
                    break;
                }
                let class = err_class(e);
                let fits = match (&bad, gone, ps.is_empty()) {
                    (_, _, true) => class == "BadRequest",
                    (_, true, _) => true,
                    (Err((k, _)), _, _) if k.contains("cycle") => class != "NotFound" || !tree,
                    (Err(_), _, _) => class == "BadRequest" || !tree,
                    _ => true,
                };
                if !fits {
                    m.violation(&format!("custom events: {what} refused for another reason"), format!("{e}"), json!({"seed": seed, "log": log}));
                    break;
                }
                if let Err((k, _)) = &bad {
                    m.count(&format!("refused: {}", &k["custom events: ".len()..]), 1);
                } else if gone {
                    m.count("refused: unknown part", 1);
                } else if tree {
                    m.count("refused: no parts", 1);
                } else {
                    m.count("refused: the same custom event twice", 1);
                }
            }
        }
        m.observed((what, res.is_ok(), depth(&g, &ps, &mut vec![]), ps.len()), ex.len() > 1);
        match read(&s.ce, p) {
            Ok(now) => {
                if now != g {
                    m.violation("custom events: what is stored is not what was accepted", format!("stored {now:?}, accepted {g:?}"), json!({"seed": seed, "log": log}));
                    break;
                }
                for i in &ids {
                    let one = s.ce.get_by_id(p, *i).map(|x| x.events.into_iter().map(|e| e.event).collect::<Vec<_>>()).ok();
                    if one.as_ref() != g.get(i) {
                        m.violation("custom events: what is stored is not what was accepted", format!("{i}"), json!({"seed": seed, "log": log}));
                    }
                }
            }
            Err(e) => m.violation("custom events: list fails", e, json!({"seed": seed, "log": log})),
        }
        let d = g.iter().filter_map(|(i, x)| depth(&g, x, &mut vec![*i])).max().unwrap_or(0);
        m.count(&format!("states with {d} levels"), 1);
    }
    m.count("histories", 1);
    s.e.discard();
}

fn concurrent(m: &mut Mon, seed: u64) {
    let mut r = Rng::new(seed);
    let p = 1;
    let s = setup(&mut r, p);
    let mut ids = vec![];
    for i in 0..4 + r.below(4) {
        // a few chains to start from
        let ps = if s.max > 0 && i > 0 && r.chance(1, 3) { vec![EventRef::Custom(ids[i - 1])] } else { vec![EventRef::Regular(s.events[0].0)] };
        match s.ce.create(p, create(&ps, format!("s{i}"))) {
            Ok(x) => ids.push(x.id),
            Err(_) => ids.push(s.ce.create(p, create(&[EventRef::Regular(s.events[0].0)], format!("s{i}"))).unwrap().id),
        }
    }
    let t = 2 + r.below(3);
    let seed2 = r.next();
    conc::delays(r.next());
    let res = conc::threads(t, |i| {
        let mut r = Rng::new(seed2 + i as u64);
        let mut log = vec![];
        for j in 0..4 {
            let ps = vec![EventRef::Custom(*r.pick(&ids))];
            let me = *r.pick(&ids);
            let new = r.chance(1, 6);
            let x = guarded(|| if new { s.ce.create(p, create(&ps, format!("t{i}-{j}"))) } else { s.ce.update(p, me, update(&ps)) });
            log.push((new, me, ps, x.map(|x| x.map(|x| x.id))));
        }
        log
    });
    conc::no_delays();
    let mut ok = 0;
    let mut busy = 0;
    let text = format!("{res:?}");
    for (_, _, _, x) in res.into_iter().flatten() {
        match x {
            Err(e) => m.violation("custom events: concurrent change panics", e, json!({"seed": seed})),
            Ok(Ok(_)) => ok += 1,
            Ok(Err(MetadataError::RocksDb(_))) => busy += 1,
            Ok(Err(_)) => {}
        }
    }
    m.count("concurrent changes accepted", ok);
    m.count("refused for a held lock", busy);
    match read(&s.ce, p) {
        Ok(g) => {
            if let Err((k, w)) = sound(&g, s.max) {
                m.violation(&format!("{k} by concurrent changes"), w, json!({"seed": seed, "changes": text}));
            }
        }
        Err(e) => m.violation("custom events: list fails", e, json!({"seed": seed})),
    }
    m.observed(("concurrent", ok, t), ok > 1);
    s.e.discard();
}

pub fn m06(m: &mut Mon) {
    m.rule("no stored custom event contains itself or nests deeper than the limit; trees within the limit are accepted; what is refused changes nothing");
    m.assume("an event that would contain the same custom event twice may be accepted or refused");
    let mut r = Rng::new(0x0606);
    let n = m.n(500, 20000);
    for _ in 0..n {
        if !m.within(60, 1200) || m.violated() {
            break;
        }
        history(m, r.next());
    }
    rocksdb::set_lock_timeout_ms(150);
    let n = m.n(250, 10000);
    let end = m.elapsed() + std::time::Duration::from_secs(if m.thorough() { 1500 } else { 50 });
    for _ in 0..n {
        if m.elapsed() > end || m.violated() {
            break;
        }
        concurrent(m, r.next());
    }
    m.require("accepted", 1000);
    m.require("refused: a cycle is stored", 50);
    m.require("refused: nested deeper than the limit", 50);
    m.require("concurrent changes accepted", 100);
}
