//! Properties and their storage columns: random creations across projects, groups, types and
//! system flags; after each the columns of all live properties are compared with the schemas of
//! the tables. Also with creations running concurrently.

use std::collections::BTreeMap;

use common::group_col;
use common::types::DType;
use common::types::TABLE_EVENTS;
use metadata::error::MetadataError;
use metadata::properties::*;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;

use crate::conc;
use crate::env::Env;

/// (group or none, project)
type Scope = (Option<usize>, u64);
fn api(e: &Env, g: Option<usize>) -> &Properties {
    match g {
        None => &e.md.event_properties,
        Some(g) => &e.md.group_properties[g],
    }
}
fn tables(g: Option<usize>) -> Vec<String> {
    let mut v = vec![TABLE_EVENTS.to_string()];
    if let Some(g) = g {
        v.push(group_col(g));
    }
    v
}
fn physical(data_type: &DType, dict: &Option<DictionaryType>) -> DType {
    match dict {
        None => data_type.clone(),
        Some(DictionaryType::Int8) => DType::Int8,
        Some(DictionaryType::Int16) => DType::Int16,
        Some(DictionaryType::Int32) => DType::Int32,
        Some(DictionaryType::Int64) => DType::Int64,
    }
}
fn columns(e: &Env) -> Result<BTreeMap<String, BTreeMap<String, DType>>, String> {
    let mut out = BTreeMap::new();
    for t in std::iter::once(TABLE_EVENTS.to_string()).chain((0..common::GROUPS_COUNT).map(group_col)) {
        let s = e.opti.schema(&t).map_err(|x| x.to_string())?;
        let mut m = BTreeMap::new();
        for f in s.fields {
            let dt = DType::try_from(f.data_type.clone()).map_err(|x| x.to_string())?;
            if m.insert(f.name.clone(), dt).is_some() {
                return Err(format!("two columns {} in table {t}", f.name));
            }
        }
        out.insert(t, m);
    }
    Ok(out)
}
fn request(r: &mut Rng, g: Option<usize>, names: &[String]) -> CreatePropertyRequest {
    let data_type = r.pick(&[DType::String, DType::String, DType::Int8, DType::Int16, DType::Int32, DType::Int64, DType::Decimal, DType::Boolean, DType::Timestamp]).clone();
    let dict = if data_type == DType::String && r.bool() { Some(r.pick(&[DictionaryType::Int8, DictionaryType::Int16, DictionaryType::Int32, DictionaryType::Int64, DictionaryType::Int64]).clone()) } else { None };
    CreatePropertyRequest {
        created_by: 1,
        tags: None,
        name: r.pick(names).clone(),
        description: None,
        display_name: if r.chance(1, 5) { Some(r.pick(names).clone()) } else { None },
        typ: match g {
            None => Type::Event,
            Some(g) => Type::Group(g),
        },
        data_type,
        status: Status::Enabled,
        hidden: r.bool(),
        is_system: r.chance(1, 4),
        nullable: true,
        is_array: false,
        is_dictionary: dict.is_some(),
        dictionary_type: dict,
    }
}
fn same(p: &Property, q: &CreatePropertyRequest) -> bool {
    p.name == q.name
        && p.display_name == q.display_name
        && p.typ == q.typ
        && p.data_type == q.data_type
        && p.is_system == q.is_system
        && p.is_dictionary == q.is_dictionary
        && p.dictionary_type == q.dictionary_type
        && p.hidden == q.hidden
}

#[derive(Default)]
struct State {
    live: BTreeMap<Scope, BTreeMap<u64, Property>>,
    /// every plain column ever given, with the property it was given to
    ever: BTreeMap<(u64, String), (Option<usize>, u64)>,
}
impl State {
    fn add(&mut self, g: Option<usize>, project: u64, p: &Property) -> Result<(), (String, String)> {
        let col = p.column_name();
        if !p.is_system {
            if let Some(o) = self.ever.insert((project, col.clone()), (g, p.id)) {
                return Err(("property: given the column of another property of its project".into(), format!("{col} of {p:?} was given to {o:?}")));
            }
        }
        self.live.entry((g, project)).or_default().insert(p.id, p.clone());
        Ok(())
    }
    /// everything that must hold of live properties and table schemas
    fn check(&self, e: &Env) -> Result<u64, (String, String)> {
        let cols = columns(e).map_err(|x| ("table schema cannot be read".to_string(), x))?;
        let mut n = 0;
        for ((g, project), ps) in &self.live {
            for (id, p) in ps {
                let got = api(e, *g).get_by_id(*project, *id).map_err(|x| ("property: cannot be read".to_string(), x.to_string()))?;
                let mut got = got;
                if got.created_at.timestamp() == p.created_at.timestamp() {
                    got.created_at = p.created_at;
                }
                if got != *p {
                    return Err(("property: reads back differently".into(), format!("{got:?}, was {p:?}")));
                }
                let col = got.column_name();
                for t in tables(*g) {
                    match cols[&t].get(&col) {
                        None => return Err(("property: has no column in storage".into(), format!("table {t}, {p:?}"))),
                        Some(dt) if *dt != physical(&p.data_type, &p.dictionary_type) => {
                            return Err(("property: its column has another type".into(), format!("table {t}, column {col} is {dt:?}, project {project} {p:?}")))
                        }
                        _ => {}
                    }
                }
                // what the column name leads back to
                let by = api(e, *g).get_by_column_name(*project, &col).map_err(|x| ("property: not found by its column".to_string(), x.to_string()))?;
                if by.column_name() != col || (!p.is_system && by.id != *id) {
                    return Err(("property: its column leads to another property".into(), format!("{col}: {by:?}")));
                }
                n += 1;
            }
        }
        // no plain column of a project is shared
        let mut own: BTreeMap<(u64, String), (Option<usize>, u64, bool)> = BTreeMap::new();
        for ((g, project), ps) in &self.live {
            for p in ps.values() {
                if let Some(o) = own.insert((*project, p.column_name()), (*g, p.id, p.is_system)) {
                    if !(p.is_system && o.2) {
                        return Err(("property: two properties of a project share a column".into(), format!("{}: {o:?} and {p:?}", p.column_name())));
                    }
                }
            }
        }
        Ok(n)
    }
}

fn history(m: &mut Mon, seed: u64) {
    let mut r = Rng::new(seed);
    let mut e = Env::new();
    let mut s = State::default();
    let mut projects = vec![1u64, 10, 2, 3];
    projects.truncate(2 + r.below(3));
    let groups = [None, None, Some(0), Some(1), Some(4)];
    let mut names: Vec<String> = ["Country", "country", "a b", "User ID", "ü", "", "p1", "p2", "p3", "p4", "x_y", "XY", "e string 0", "created_at"].iter().map(|x| x.to_string()).collect();
    r.shuffle(&mut names);
    names.truncate(4 + r.below(8));
    let mut log: Vec<String> = vec![];
    let fail = |m: &mut Mon, k: String, w: String, log: &[String]| {
        let tail: Vec<&String> = log.iter().rev().take(15).collect();
        m.violation(&k, w, json!({"seed": seed, "last operations, newest first": tail}));
    };
    for _ in 0..15 + r.below(50) {
        let g = *r.pick(&groups);
        let p = *r.pick(&projects);
        if r.chance(1, 12) {
            let ids: Vec<u64> = s.live.get(&(g, p)).map(|x| x.keys().copied().collect()).unwrap_or_default();
            if !ids.is_empty() {
                let id = *r.pick(&ids);
                let res = guarded(|| api(&e, g).delete(p, id));
                log.push(format!("delete {g:?} {p} {id}"));
                if !matches!(res, Ok(Ok(_))) {
                    return fail(m, "property: an existing one is not deleted".into(), format!("{id}"), &log);
                }
                s.live.get_mut(&(g, p)).unwrap().remove(&id);
                m.count("deleted", 1);
            }
        } else if r.chance(1, 40) {
            e = e.reopen(true);
            log.push("reopen".into());
            m.count("reopened", 1);
        } else {
            let q = request(&mut r, g, &names);
            let goc = r.bool();
            let before = columns(&e).unwrap_or_default();
            let twin = s.live.get(&(g, p)).and_then(|x| x.values().find(|x| x.name == q.name)).cloned();
            let disp = q.display_name.is_some() && s.live.get(&(g, p)).map(|x| x.values().any(|x| x.display_name == q.display_name)).unwrap_or(false);
            let res = guarded(|| if goc { api(&e, g).get_or_create(p, q.clone()) } else { api(&e, g).create(p, q.clone()) });
            log.push(format!(
                "{} {g:?} project {p} {:?} {:?} dictionary {:?} system {}: {}",
                if goc { "get_or_create" } else { "create" },
                q.name,
                q.data_type,
                q.dictionary_type,
                q.is_system,
                match &res {
                    Ok(Ok(x)) => x.column_name(),
                    Ok(Err(x)) => x.to_string(),
                    Err(x) => x.clone(),
                }
            ));
            m.observed((g.is_some(), goc, format!("{:?}", q.data_type), format!("{:?}", q.dictionary_type), q.is_system, res.as_ref().map(|x| x.is_ok()).unwrap_or(false), twin.is_some()), true);
            match res {
                Err(x) => return fail(m, "property: creation panics".into(), x, &log),
                Ok(Ok(x)) => {
                    if let (true, Some(t)) = (goc, &twin) {
                        if x.id != t.id || x.column_name() != t.column_name() {
                            return fail(m, "property: get_or_create returns another".into(), format!("{x:?}, must be {t:?}"), &log);
                        }
                        m.count("got existing", 1);
                    } else {
                        if twin.is_some() || disp {
                            return fail(m, "property: a taken name is accepted".into(), format!("{q:?}"), &log);
                        }
                        if !same(&x, &q) {
                            return fail(m, "property: created with other fields".into(), format!("{x:?}, asked {q:?}"), &log);
                        }
                        if let Err((k, w)) = s.add(g, p, &x) {
                            return fail(m, k, w, &log);
                        }
                        m.count("created", 1);
                        let want = physical(&q.data_type, &q.dictionary_type);
                        if before.get(TABLE_EVENTS).map(|c| c.contains_key(&x.column_name())).unwrap_or(false) {
                            m.count("created on a column that existed", 1);
                        }
                        if x.order > 0 && !x.is_system {
                            let prev = x.column_name().rsplit_once('_').map(|(a, _)| format!("{a}_{}", x.order - 1)).unwrap();
                            if before.get(TABLE_EVENTS).and_then(|c| c.get(&prev)).map(|t| *t != want).unwrap_or(false) {
                                m.count("created next to a column of another type", 1);
                            }
                        }
                    }
                }
                Ok(Err(x)) => {
                    let probe = Property { is_system: true, name: q.name.clone(), ..probe(&q, p) };
                    let want = physical(&q.data_type, &q.dictionary_type);
                    let clash = q.is_system && tables(g).iter().any(|t| before.get(t).and_then(|c| c.get(&probe.column_name())).map(|t| *t != want).unwrap_or(false));
                    if !matches!(x, MetadataError::AlreadyExists(_)) || !(twin.is_some() || disp || clash) {
                        return fail(m, "property: creation refused for no reason".into(), x.to_string(), &log);
                    }
                    m.count(if clash { "refused: system column of another type" } else { "refused: taken name" }, 1);
                }
            }
        }
        match s.check(&e) {
            Ok(n) => m.count("properties compared with columns", n),
            Err((k, w)) => return fail(m, k, w, &log),
        }
    }
    m.count("histories", 1);
    e.discard();
}
fn probe(q: &CreatePropertyRequest, project_id: u64) -> Property {
    Property {
        id: 0,
        created_at: chrono::DateTime::from_timestamp(0, 0).unwrap(),
        updated_at: None,
        created_by: 0,
        updated_by: None,
        project_id,
        tags: None,
        name: q.name.clone(),
        description: None,
        display_name: None,
        order: 0,
        typ: q.typ.clone(),
        data_type: q.data_type.clone(),
        status: Status::Enabled,
        is_system: q.is_system,
        nullable: true,
        hidden: false,
        is_array: false,
        is_dictionary: false,
        dictionary_type: None,
    }
}

fn concurrent(m: &mut Mon, seed: u64) {
    let mut r = Rng::new(seed);
    let e = Env::new();
    let t = 2 + r.below(3);
    let per = 2 + r.below(5);
    let same_project = r.bool();
    let reqs: Vec<Vec<(Option<usize>, u64, CreatePropertyRequest)>> = (0..t)
        .map(|i| {
            (0..per)
                .map(|j| {
                    let g = *r.pick(&[None, Some(0), Some(1)]);
                    let mut q = request(&mut r, g, &[format!("t{i} {j}")]);
                    q.data_type = DType::String;
                    q.display_name = None;
                    if r.bool() {
                        q.dictionary_type = Some(r.pick(&[DictionaryType::Int8, DictionaryType::Int64]).clone());
                        q.is_dictionary = true;
                    } else {
                        q.dictionary_type = None;
                        q.is_dictionary = false;
                    }
                    q.is_system = false;
                    (g, if same_project { 1 } else { 1 + i as u64 }, q)
                })
                .collect()
        })
        .collect();
    conc::delays(r.next());
    let res = conc::threads(t, |i| reqs[i].iter().map(|(g, p, q)| guarded(|| api(&e, *g).get_or_create(*p, q.clone()))).collect::<Vec<_>>());
    conc::no_delays();
    let mut s = State::default();
    let mut ok = 0;
    let mut bad = None;
    for (i, rs) in res.into_iter().enumerate() {
        for (j, x) in rs.into_iter().enumerate() {
            let (g, p, q) = &reqs[i][j];
            match x {
                Err(x) => bad = Some(("property: concurrent creation panics".to_string(), x)),
                Ok(Ok(x)) => {
                    ok += 1;
                    if !same(&x, q) {
                        bad = Some(("property: created with other fields".into(), format!("{x:?}, asked {q:?}")));
                    } else if let Err(b) = s.add(*g, *p, &x) {
                        bad = Some(b);
                    }
                }
                Ok(Err(MetadataError::RocksDb(_))) => m.count("refused for a held lock", 1),
                Ok(Err(x)) => bad = Some(("property: concurrent creation refused for no reason".into(), x.to_string())),
            }
        }
    }
    m.count("created concurrently", ok);
    match s.check(&e) {
        Ok(n) => m.count("properties compared with columns", n),
        Err(b) => bad = bad.or(Some(b)),
    }
    if let Some((k, w)) = bad {
        m.violation(&k, w, json!({"seed": seed, "threads": t}));
    }
    m.observed(("concurrent", t, per, same_project), true);
    e.discard();
}

pub fn m08(m: &mut Mon) {
    m.rule("every live property has a column of its physical type in the tables it belongs to, no plain column is shared or given again within a project");
    m.assume("the type, dictionary and system flag of a property are not changed after its creation: no interface of the platform does that");
    m.assume("two system properties of the same name and type may share a column");
    let mut r = Rng::new(0x0808);
    let n = m.n(250, 10000);
    for _ in 0..n {
        if !m.within(60, 1200) || m.violated() {
            break;
        }
        history(m, r.next());
    }
    rocksdb::set_lock_timeout_ms(150);
    let n = m.n(120, 5000);
    let end = m.elapsed() + std::time::Duration::from_secs(if m.thorough() { 1200 } else { 40 });
    for _ in 0..n {
        if m.elapsed() > end || m.violated() {
            break;
        }
        concurrent(m, r.next());
    }
    m.require("created", 500);
    m.require("created concurrently", 50);
    m.require("created next to a column of another type", 5);
    m.require("refused: system column of another type", 5);
    m.require("reopened", 2);
}
