//! A whole installation: several projects with the same names of everything in one metadata store and
//! one event store, and the raw list of what was put into it.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;

use chrono::DateTime;
use chrono::Utc;
use common::group_col;
use common::query::EventRef;
use common::query::PropValueFilter;
use common::query::PropValueOperation as Op;
use common::query::PropertyRef;
use common::types::DType;
use common::types::*;
use common::DECIMAL_PRECISION;
use common::GROUPS_COUNT;
use datafusion_common::ScalarValue;
use metadata::properties::DictionaryType;
use metadata::properties::Type;
use metadata::util::CreatePropertyMainRequest;
use metadata::MetadataProvider;
use mon::Rng;
use storage::db::OptiDBImpl;
use storage::NamedValue;
use storage::Value;

use crate::util::*;

pub const HOUR: i64 = 3_600_000;
pub const DAY: i64 = 24 * HOUR;
/// 2024-02-26 00:00 UTC, a Monday; the month border and the leap day are inside the data
pub const T0: i64 = 1_708_905_600_000;

#[derive(Clone, Debug)]
pub struct P {
    pub name: String,
    pub gid: Option<usize>,
    pub ty: DType,
    pub dict: Option<DictionaryType>,
    pub col: String,
    pub pool: Vec<V>,
    /// one that every project has
    pub sys: bool,
}
impl P {
    pub fn r(&self) -> PropertyRef {
        match self.gid {
            None => PropertyRef::Event(self.name.clone()),
            Some(g) => PropertyRef::Group(self.name.clone(), g),
        }
    }
    fn table(&self) -> String {
        match self.gid {
            None => TABLE_EVENTS.to_string(),
            Some(g) => group_col(g),
        }
    }
}
/// one event; `vals` are the values of the project's properties in order
#[derive(Clone, Debug)]
pub struct Row {
    pub id: i64,
    pub user: i64,
    /// 0: none
    pub company: i64,
    pub ts: i64,
    pub event: usize,
    pub vals: Vec<V>,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub gid: usize,
    pub id: i64,
    pub name: String,
    pub version: i64,
    pub ts: i64,
    /// values of the properties of the project, Null for those of other groups
    pub vals: Vec<V>,
}
#[derive(Clone, Debug)]
pub struct Custom {
    pub id: u64,
    pub name: String,
    pub events: Vec<(EventRef, Vec<F>)>,
}
pub struct Proj {
    pub id: u64,
    pub name: String,
    pub events: Vec<(String, u64)>,
    /// those of the project, then those every event has, then those every group record has
    pub props: Vec<P>,
    /// how many are of the project
    pub own: usize,
    /// how many can be asked of events
    pub ne: usize,
    pub rows: Vec<Row>,
    pub recs: Vec<Rec>,
    pub customs: Vec<Custom>,
    pub users: Vec<String>,
}
pub struct World {
    pub md: Arc<MetadataProvider>,
    pub db: Arc<OptiDBImpl>,
    pub dir: PathBuf,
    pub projs: Vec<Proj>,
}
impl Drop for World {
    fn drop(&mut self) {
        // closing waits for the background threads; the next world need not wait for that
        let (md, db, dir) = (self.md.clone(), self.db.clone(), self.dir.clone());
        self.md = MD0.with(|m| m.clone());
        self.db = DB0.with(|m| m.clone());
        std::thread::spawn(move || {
            drop(md);
            drop(db);
            let _ = std::fs::remove_dir_all(dir);
        });
    }
}
fn empty(dir: &PathBuf) -> (Arc<MetadataProvider>, Arc<OptiDBImpl>) {
    let db = Arc::new(OptiDBImpl::open(dir.join("db"), storage::db::Options {}).unwrap());
    let store = Arc::new(metadata::rocksdb::new(dir.join("md")).unwrap());
    for t in std::iter::once(TABLE_EVENTS.to_string()).chain((0..GROUPS_COUNT).map(group_col)) {
        let mut o = storage::table::Options::test(t != TABLE_EVENTS);
        o.index_cols = 2;
        db.create_table(t, o).unwrap();
    }
    let md = Arc::new(MetadataProvider::try_new(store, db.clone()).unwrap());
    (md, db)
}
fn scratch() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let d = base().join(format!("w{n}"));
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn base() -> PathBuf {
    std::env::temp_dir().join(format!("vq{}", std::process::id()))
}
thread_local! {
    static PAIR0: (Arc<MetadataProvider>, Arc<OptiDBImpl>) = empty(&scratch());
    static MD0: Arc<MetadataProvider> = PAIR0.with(|p| p.0.clone());
    static DB0: Arc<OptiDBImpl> = PAIR0.with(|p| p.1.clone());
}

pub fn prop(md: &Arc<MetadataProvider>, proj: u64, name: &str, typ: Type, ty: DType, dict: Option<DictionaryType>, sys: bool, nullable: bool) -> metadata::properties::Property {
    metadata::util::create_property(md, proj, CreatePropertyMainRequest {
        name: name.to_string(),
        display_name: None,
        typ,
        data_type: ty,
        nullable,
        hidden: false,
        dict,
        is_system: sys,
    })
    .unwrap()
}
pub fn value(v: &V, ty: &DType) -> Value {
    match (ty, v) {
        (DType::Int8, V::Int(i)) => Value::Int8(Some(*i as i8)),
        (DType::Int16, V::Int(i)) => Value::Int16(Some(*i as i16)),
        (DType::Int32, V::Int(i)) => Value::Int32(Some(*i as i32)),
        (DType::Int64, V::Int(i)) => Value::Int64(Some(*i as i64)),
        (DType::Decimal, V::Dec(i)) => Value::Decimal(Some(*i)),
        (DType::Boolean, V::Bool(b)) => Value::Boolean(Some(*b)),
        (DType::Timestamp, V::Ts(t)) => Value::Timestamp(Some(*t)),
        (DType::String, V::Str(s)) => Value::String(Some(s.clone())),
        o => panic!("{o:?}"),
    }
}
fn pool(r: &mut Rng, ty: &DType) -> Vec<V> {
    let ints = |r: &mut Rng, lo: i64, hi: i64| -> Vec<V> {
        let mut v = vec![V::Int(0), V::Int(1), V::Int(-1), V::Int(lo as i128), V::Int(hi as i128)];
        for _ in 0..3 {
            v.push(V::Int(r.range(-100, 100) as i128));
        }
        v
    };
    match ty {
        DType::Int8 => ints(r, i8::MIN as i64, i8::MAX as i64),
        DType::Int16 => ints(r, i16::MIN as i64, i16::MAX as i64),
        DType::Int32 => ints(r, i32::MIN as i64, i32::MAX as i64),
        DType::Int64 => ints(r, -(1 << 35), 1 << 35),
        DType::Decimal => {
            let mut v = vec![V::Dec(0), V::Dec(MUL), V::Dec(-MUL), V::Dec(MUL / 2)];
            for _ in 0..4 {
                v.push(V::Dec(r.range(-100_000, 100_000) as i128 * MUL / 1000));
            }
            v
        }
        DType::Boolean => vec![V::Bool(true), V::Bool(false)],
        DType::Timestamp => (0..5).map(|_| V::Ts(T0 + r.range(-3, 3) * DAY + r.range(0, 2))).collect(),
        _ => {
            let all = ["a", "b", "ab", "A", "", "aa", "é", "a_b", "a%b", "10", "9", "a b", " a", "x.y", "xzy", "\\", "ba"];
            let mut v: Vec<V> = vec![];
            for _ in 0..7 {
                let s = V::Str(r.pick(&all).to_string());
                if !v.contains(&s) {
                    v.push(s);
                }
            }
            v
        }
    }
}
pub struct Shape {
    pub projects: usize,
    pub rows: usize,
    pub recs: usize,
    pub props: usize,
    /// some names stand for several properties
    pub twins: bool,
}
pub fn types() -> Vec<(DType, Option<DictionaryType>)> {
    vec![
        (DType::String, None),
        (DType::String, Some(DictionaryType::Int8)),
        (DType::String, Some(DictionaryType::Int16)),
        (DType::String, Some(DictionaryType::Int32)),
        (DType::String, Some(DictionaryType::Int64)),
        (DType::Int8, None),
        (DType::Int16, None),
        (DType::Int32, None),
        (DType::Int64, None),
        (DType::Decimal, None),
        (DType::Boolean, None),
        (DType::Timestamp, None),
    ]
}
impl World {
    pub fn new(r: &mut Rng, s: &Shape) -> World {
        let dir = scratch();
        let (md, db) = empty(&dir);
        let names = ["purchase", "view", "login", "click"];
        let mut projs = vec![];
        // the same property names in every project, in types and an order of its own in each
        let pnames: Vec<String> = (0..s.props).map(|i| format!("prop{i}")).collect();
        for p in 1..=s.projects as u64 {
            init_project(&md, p);
            let mut order: Vec<usize> = (0..names.len()).collect();
            r.shuffle(&mut order);
            let mut events: Vec<(String, u64)> = vec![];
            for i in order {
                let e = metadata::util::create_event(&md, p, names[i].to_string()).unwrap();
                md.dictionaries.create_key(p, TABLE_EVENTS, COLUMN_EVENT, e.id, names[i]).unwrap();
                events.push((names[i].to_string(), e.id));
            }
            events.sort();
            let mut props: Vec<P> = vec![];
            let mut pn = pnames.clone();
            r.shuffle(&mut pn);
            if s.twins {
                for i in 0..pn.len() / 3 {
                    pn.push(pn[i].clone());
                }
            }
            let all = types();
            for (i, n) in pn.iter().enumerate() {
                let (ty, dict) = if i < all.len() && s.props >= all.len() { all[i].clone() } else { r.pick(&all).clone() };
                let mut gid = *r.pick(&[None, None, Some(0), Some(1)]);
                while props.iter().any(|q| q.name == *n && q.gid == gid) {
                    gid = *r.pick(&[None, Some(0), Some(1)]);
                }
                let mp = prop(
                    &md,
                    p,
                    n,
                    match gid {
                        None => Type::Event,
                        Some(g) => Type::Group(g),
                    },
                    ty.clone(),
                    dict.clone(),
                    false,
                    true,
                );
                let pr = P { name: n.clone(), gid, pool: pool(r, &ty), ty, dict, col: mp.column_name(), sys: false };
                // strings that no row has, so that keys go up to the width of the column
                let n = match pr.dict {
                    Some(DictionaryType::Int8) => *r.pick(&[0, 0, 60, 100]),
                    Some(DictionaryType::Int16) => *r.pick(&[0, 0, 126, 254, 300]),
                    Some(_) => *r.pick(&[0, 0, 127, 255, 256, 700]),
                    None => 0,
                };
                for i in 0..n {
                    md.dictionaries.get_key_or_create(p, &pr.table(), &pr.col, &format!("unused {i}")).unwrap();
                }
                props.push(pr);
            }
            let own = props.len();
            let ne = own + system(p, s, &events, &mut props);
            projs.push(Proj {
                own,
                ne,
                id: p,
                name: format!("project {p}"),
                events,
                props,
                rows: vec![],
                recs: vec![],
                customs: vec![],
                users: vec![],
            });
        }
        let mut w = World { md, db, dir, projs };
        for p in 0..s.projects {
            w.records(r, p, s.recs);
        }
        if r.bool() {
            w.flush_groups();
        }
        // rows of the projects arrive interleaved
        let total = s.rows * s.projects;
        for i in 0..total {
            let p = r.below(s.projects);
            w.row(r, p);
            if r.chance(1, 1 + total as u32 / 4) && i > 0 {
                w.flush();
            }
        }
        if r.bool() {
            w.flush();
        }
        for p in 0..s.projects {
            w.customs(r, p);
        }
        w
    }
    pub fn flush(&self) {
        let _ = self.db.flush(TABLE_EVENTS);
    }
    /// Only once, after the last record: a merge of a group table that is set up as the program
    /// sets it up keeps one record of a project (a known finding).
    pub fn flush_groups(&self) {
        for g in 0..GROUPS_COUNT {
            let _ = self.db.flush(group_col(g).as_str());
        }
    }
    fn code(&self, p: &Proj, pr: &P, table: &str, v: &V) -> Value {
        match (&pr.dict, v) {
            (Some(d), V::Str(s)) => {
                let k = self.md.dictionaries.get_key_or_create(p.id, table, &pr.col, s).unwrap();
                match d {
                    DictionaryType::Int8 => Value::Int8(Some(k as i8)),
                    DictionaryType::Int16 => Value::Int16(Some(k as i16)),
                    DictionaryType::Int32 => Value::Int32(Some(k as i32)),
                    DictionaryType::Int64 => Value::Int64(Some(k as i64)),
                }
            }
            (_, v) => value(v, &pr.ty),
        }
    }
    pub fn records(&mut self, r: &mut Rng, p: usize, n: usize) {
        let mut versions: BTreeMap<(usize, i64), i64> = BTreeMap::new();
        for _ in 0..n {
            let gid = r.below(2);
            let id = 1 + r.below(n / 2 + 1) as i64;
            let name = format!("g{gid}-{}-{id}", ["x", "y"][id as usize % 2]);
            let ver = versions.entry((gid, id)).or_default();
            *ver = (*ver).max(self.projs[p].recs.iter().filter(|x| (x.gid, x.id) == (gid, id)).map(|x| x.version).max().unwrap_or(0)) + 1;
            let vals: Vec<V> = self.projs[p].props[..self.projs[p].own]
                .iter()
                .map(|pr| if pr.gid != Some(gid) || r.chance(1, 4) { V::Null } else { r.pick(&pr.pool).clone() })
                .collect();
            let rec = Rec { gid, id, name, version: *ver, ts: T0 + r.range(0, 8) * DAY + r.range(-1, 1), vals };
            self.put_rec(p, rec);
        }
    }
    pub fn put_rec(&mut self, p: usize, rec: Rec) {
        let pr = &self.projs[p];
        let (gid, t) = (rec.gid, group_col(rec.gid));
        self.md.dictionaries.create_key(pr.id, &t, GROUP_COLUMN_ID, rec.id as u64, &rec.name).unwrap();
        let mut nv = vec![
            NamedValue::new(GROUP_COLUMN_PROJECT_ID.to_string(), Value::Int64(Some(pr.id as i64))),
            NamedValue::new(GROUP_COLUMN_ID.to_string(), Value::Int64(Some(rec.id))),
            NamedValue::new(GROUP_COLUMN_VERSION.to_string(), Value::Int64(Some(rec.version))),
            NamedValue::new(GROUP_COLUMN_CREATED_AT.to_string(), Value::Timestamp(Some(rec.ts))),
        ];
        for (q, v) in pr.props[..pr.own].iter().zip(&rec.vals) {
            if *v != V::Null {
                nv.push(NamedValue::new(q.col.clone(), self.code(pr, q, &q.table(), v)));
            }
        }
        self.db.insert(&t, nv).unwrap();
        let mut rec = rec;
        for q in &pr.props[pr.own..] {
            rec.vals.push(match (q.gid == Some(gid), q.name.as_str()) {
                (true, GROUP_COLUMN_PROJECT_ID) => V::Str(pr.name.clone()),
                (true, GROUP_COLUMN_ID) => V::Str(rec.name.clone()),
                (true, GROUP_COLUMN_VERSION) => V::Int(rec.version as i128),
                (true, GROUP_COLUMN_CREATED_AT) => V::Ts(rec.ts),
                _ => V::Null,
            });
        }
        let recs = &mut self.projs[p].recs;
        recs.retain(|x| (x.gid, x.id) != (gid, rec.id));
        recs.push(rec);
    }
    /// one more event and one more property, named as those of the others are
    pub fn more(&mut self, r: &mut Rng, p: usize) {
        let pr = &mut self.projs[p];
        let n = r.pick(&["signup", "logout"]).to_string();
        if !pr.events.iter().any(|e| e.0 == n) {
            let e = metadata::util::create_event(&self.md, pr.id, n.clone()).unwrap();
            self.md.dictionaries.create_key(pr.id, TABLE_EVENTS, COLUMN_EVENT, e.id, &n).unwrap();
            pr.events.push((n, e.id));
        }
        let n = format!("extra{}", pr.props.len());
        let (ty, dict) = r.pick(&types()).clone();
        let mp = prop(&self.md, pr.id, &n, Type::Event, ty.clone(), dict.clone(), false, true);
        pr.props.insert(pr.own, P { name: n, gid: None, pool: pool(r, &ty), ty, dict, col: mp.column_name(), sys: false });
        for row in &mut pr.rows {
            row.vals.insert(pr.own, V::Null);
        }
        for rec in &mut pr.recs {
            rec.vals.insert(pr.own, V::Null);
        }
        pr.own += 1;
        pr.ne += 1;
    }
    pub fn row(&mut self, r: &mut Rng, p: usize) {
        let pr = &self.projs[p];
        let ts = match r.below(6) {
            0 => T0 + r.range(0, 8) * DAY,
            1 => T0 + r.range(0, 8) * DAY - 1,
            2 => T0 + r.range(0, 48) * HOUR,
            _ => T0 + r.range(0, 8 * DAY),
        };
        let vals: Vec<V> = pr.props[..pr.own].iter().map(|q| if r.chance(1, 4) { V::Null } else { r.pick(&q.pool).clone() }).collect();
        let row = Row {
            id: self.md.events.next_record_sequence(pr.id).unwrap() as i64,
            user: 1 + r.below(6) as i64,
            company: r.below(4) as i64,
            ts,
            event: r.below(pr.events.len()),
            vals,
        };
        self.put(p, row);
    }
    pub fn put(&mut self, p: usize, row: Row) {
        let pr = &self.projs[p];
        self.md.dictionaries.create_key(pr.id, TABLE_EVENTS, "group_0", row.user as u64, &format!("user {}", row.user)).unwrap();
        let company = if row.company == 0 { None } else { Some(row.company) };
        self.md.dictionaries.create_key(pr.id, TABLE_EVENTS, "group_1", row.company as u64, &format!("company {}", row.company)).unwrap();
        let mut nv = vec![
            NamedValue::new(COLUMN_PROJECT_ID.to_string(), Value::Int64(Some(pr.id as i64))),
            NamedValue::new(group_col(0), Value::Int64(Some(row.user))),
            NamedValue::new(group_col(1), Value::Int64(company)),
        ];
        for g in 2..GROUPS_COUNT {
            nv.push(NamedValue::new(group_col(g), Value::Int64(None)));
        }
        nv.push(NamedValue::new(COLUMN_CREATED_AT.to_string(), Value::Timestamp(Some(row.ts))));
        nv.push(NamedValue::new(COLUMN_EVENT_ID.to_string(), Value::Int64(Some(row.id))));
        nv.push(NamedValue::new(COLUMN_EVENT.to_string(), Value::Int64(Some(pr.events[row.event].1 as i64))));
        for (q, v) in pr.props[..pr.own].iter().zip(&row.vals) {
            if *v != V::Null {
                nv.push(NamedValue::new(q.col.clone(), self.code(pr, q, &q.table(), v)));
            }
        }
        self.db.insert(TABLE_EVENTS, nv).unwrap();
        let mut row = row;
        for q in &pr.props[pr.own..] {
            row.vals.push(match (q.gid, q.name.as_str()) {
                (None, COLUMN_PROJECT_ID) => V::Str(pr.name.clone()),
                (None, COLUMN_CREATED_AT) => V::Ts(row.ts),
                (None, COLUMN_EVENT_ID) => V::Int(row.id as i128),
                (None, COLUMN_EVENT) => V::Str(pr.events[row.event].0.clone()),
                (None, "group_0") => V::Str(format!("user {}", row.user)),
                (None, "group_1") if row.company > 0 => V::Str(format!("company {}", row.company)),
                _ => V::Null,
            });
        }
        self.projs[p].rows.push(row);
    }
    fn customs(&mut self, r: &mut Rng, p: usize) {
        for i in 0..2 {
            let pr = &self.projs[p];
            let mut events = vec![];
            for _ in 0..1 + r.below(2) {
                let e = if i == 1 && !events.iter().any(|(e, _)| matches!(e, EventRef::Custom(_))) && r.bool() {
                    EventRef::Custom(pr.customs[0].id)
                } else {
                    EventRef::RegularName(r.pick(&pr.events).0.clone())
                };
                let fs = if r.bool() { vec![] } else { vec![filter(r, &pr.props[..pr.ne], false)] };
                events.push((e, fs));
            }
            let name = format!("custom{i}");
            let c = self
                .md
                .custom_events
                .create(pr.id, metadata::custom_events::CreateCustomEventRequest {
                    created_by: 1,
                    tags: None,
                    name: name.clone(),
                    description: None,
                    status: metadata::custom_events::Status::Enabled,
                    is_system: false,
                    events: events
                        .iter()
                        .map(|(e, fs)| metadata::custom_events::Event {
                            event: e.clone(),
                            filters: if fs.is_empty() { None } else { Some(fs.iter().map(|f| f.req()).collect()) },
                        })
                        .collect(),
                })
                .unwrap();
            self.projs[p].customs.push(Custom { id: c.id, name, events });
        }
    }
}
/// the properties that every project has; returns how many of them are of events
fn system(id: u64, s: &Shape, events: &[(String, u64)], props: &mut Vec<P>) -> usize {
    let strs = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(|i| V::Str(f(i))).collect::<Vec<_>>();
    let d = Some(DictionaryType::Int64);
    let times: Vec<V> = [0, 1, 3 * DAY, 5 * DAY + HOUR].iter().map(|t| V::Ts(T0 + t)).collect();
    let ints = |n: i128| vec![V::Int(1), V::Int(2), V::Int(n / 2 + 1), V::Int(n)];
    let mut add = |n: &str, gid: Option<usize>, ty: DType, dict: Option<DictionaryType>, pool: Vec<V>| {
        props.push(P { name: n.to_string(), gid, ty, dict, col: n.to_string(), pool, sys: true });
    };
    let own = format!("project {id}");
    add(COLUMN_PROJECT_ID, None, DType::String, d.clone(), vec![V::Str(own.clone()), V::Str("project 2".into())]);
    add(COLUMN_EVENT, None, DType::String, d.clone(), strs(events.len(), &|i| events[i].0.clone()));
    add("group_0", None, DType::String, d.clone(), strs(6, &|i| format!("user {}", i + 1)));
    add("group_1", None, DType::String, d.clone(), strs(3, &|i| format!("company {}", i + 1)));
    add("group_2", None, DType::String, d.clone(), strs(2, &|i| format!("else {}", i + 1)));
    add(COLUMN_CREATED_AT, None, DType::Timestamp, None, times.clone());
    add(COLUMN_EVENT_ID, None, DType::Int64, None, ints(s.rows as i128));
    add(COLUMN_IP, None, DType::String, None, strs(2, &|i| format!("10.0.0.{i}")));
    for g in 0..2 {
        add(GROUP_COLUMN_PROJECT_ID, Some(g), DType::String, d.clone(), vec![V::Str(own.clone()), V::Str("project 2".into())]);
        add(GROUP_COLUMN_ID, Some(g), DType::String, d.clone(), strs(6, &|i| format!("g{g}-{}-{}", ["x", "y"][(i + 1) % 2], i + 1)));
        add(GROUP_COLUMN_VERSION, Some(g), DType::Int64, None, ints(3));
        add(GROUP_COLUMN_CREATED_AT, Some(g), DType::Timestamp, None, times.clone());
    }
    8
}
/// what the platform does for a new project
pub fn init_project(md: &Arc<MetadataProvider>, p: u64) {
    let d = Some(DictionaryType::Int64);
    prop(md, p, COLUMN_PROJECT_ID, Type::Event, DType::String, d.clone(), true, false);
    for g in 0..GROUPS_COUNT {
        prop(md, p, &group_col(g), Type::Event, DType::String, d.clone(), true, true);
    }
    prop(md, p, COLUMN_CREATED_AT, Type::Event, DType::Timestamp, None, true, false);
    prop(md, p, COLUMN_EVENT_ID, Type::Event, DType::Int64, None, true, false);
    prop(md, p, COLUMN_EVENT, Type::Event, DType::String, d.clone(), true, false);
    prop(md, p, COLUMN_IP, Type::Event, DType::String, None, true, true);
    md.dictionaries.create_key(p, TABLE_EVENTS, COLUMN_PROJECT_ID, p, &format!("project {p}")).unwrap();
    for g in 0..GROUPS_COUNT {
        prop(md, p, GROUP_COLUMN_PROJECT_ID, Type::Group(g), DType::String, d.clone(), true, true);
        prop(md, p, GROUP_COLUMN_ID, Type::Group(g), DType::String, d.clone(), true, true);
        prop(md, p, GROUP_COLUMN_VERSION, Type::Group(g), DType::Int64, None, true, true);
        prop(md, p, GROUP_COLUMN_CREATED_AT, Type::Group(g), DType::Timestamp, None, true, true);
        md.dictionaries.create_key(p, &group_col(g), GROUP_COLUMN_PROJECT_ID, p, &format!("project {p}")).unwrap();
    }
}

/// a filter as a plain predicate: number values as (mantissa, scale)
#[derive(Clone, Debug)]
pub struct F {
    pub prop: usize,
    pub r: PropertyRef,
    pub op: Op,
    pub vals: Option<Vec<V>>,
}
pub fn scalar(v: &V) -> ScalarValue {
    match v {
        V::Bool(b) => ScalarValue::Boolean(Some(*b)),
        V::Str(s) => ScalarValue::Utf8(Some(s.clone())),
        // as the numbers of a request are read: the shortest scale
        V::Dec(d) => {
            let (mut d, mut s) = (*d, common::DECIMAL_SCALE);
            while s > 0 && d % 10 == 0 {
                d /= 10;
                s -= 1;
            }
            ScalarValue::Decimal128(Some(d), DECIMAL_PRECISION, s)
        }
        o => panic!("{o:?}"),
    }
}
impl F {
    pub fn req(&self) -> PropValueFilter {
        PropValueFilter::Property {
            property: self.r.clone(),
            operation: self.op.clone(),
            value: self.vals.as_ref().map(|v| v.iter().map(scalar).collect()),
        }
    }
    pub fn show(&self) -> String {
        format!("{:?} {:?} {:?}", self.r, self.op, self.vals.as_ref().map(|v| v.iter().map(|x| x.s()).collect::<Vec<_>>()))
    }
    pub fn keeps(&self, v: &V) -> bool {
        holds(v, &self.op, self.vals.as_deref().unwrap_or(&[]))
    }
}
pub fn like(s: &str, pat: &str) -> bool {
    let (s, p): (Vec<char>, Vec<char>) = (s.chars().collect(), pat.chars().collect());
    fn go(s: &[char], p: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('%') => (0..=s.len()).any(|i| go(&s[i..], &p[1..])),
            Some('_') => !s.is_empty() && go(&s[1..], &p[1..]),
            Some(c) => s.first() == Some(c) && go(&s[1..], &p[1..]),
        }
    }
    go(&s, &p)
}
fn dec_of(v: &V) -> Option<i128> {
    match v {
        V::Int(i) => Some(i * MUL),
        V::Dec(d) => Some(*d),
        V::Ts(t) => Some(*t as i128 * MUL),
        _ => None,
    }
}
pub fn holds(v: &V, op: &Op, vals: &[V]) -> bool {
    match op {
        Op::Empty => return *v == V::Null,
        Op::Exists => return *v != V::Null,
        _ => {}
    }
    if *v == V::Null {
        return false;
    }
    let cmp = |x: &V| match (dec_of(v), dec_of(x)) {
        (Some(a), Some(b)) => a.cmp(&b),
        _ => match (v, x) {
            (V::Str(a), V::Str(b)) => a.cmp(b),
            (V::Bool(a), V::Bool(b)) => a.cmp(b),
            o => panic!("{o:?}"),
        },
    };
    let s = |x: &V| match x {
        V::Str(s) => s.clone(),
        o => panic!("{o:?}"),
    };
    match op {
        Op::Eq => vals.iter().any(|x| cmp(x).is_eq()),
        Op::Neq => vals.iter().all(|x| cmp(x).is_ne()),
        Op::Gt => vals.iter().any(|x| cmp(x).is_gt()),
        Op::Gte => vals.iter().any(|x| cmp(x).is_ge()),
        Op::Lt => vals.iter().any(|x| cmp(x).is_lt()),
        Op::Lte => vals.iter().any(|x| cmp(x).is_le()),
        Op::True => *v == V::Bool(true),
        Op::False => *v == V::Bool(false),
        Op::Like => vals.iter().any(|x| like(&s(v), &s(x))),
        Op::NotLike => vals.iter().all(|x| !like(&s(v), &s(x))),
        Op::Regex => vals.iter().any(|x| regex::Regex::new(&s(x)).unwrap().is_match(&s(v))),
        Op::NotRegex => vals.iter().all(|x| !regex::Regex::new(&s(x)).unwrap().is_match(&s(v))),
        Op::Empty | Op::Exists => unreachable!(),
    }
}
/// a random filter on one of the properties; `fixed`: also what only `fix_filter` makes executable
pub fn filter(r: &mut Rng, props: &[P], fixed: bool) -> F {
    loop {
        let i = r.below(props.len());
        if !fixed && props[i].ty == DType::Timestamp {
            continue;
        }
        return filter_on(r, props, i);
    }
}
pub fn filter_on(r: &mut Rng, props: &[P], i: usize) -> F {
    let p = &props[i];
    let op = if r.chance(1, 8) {
        r.pick(&[Op::Empty, Op::Exists]).clone()
    } else {
        match &p.ty {
            DType::Boolean => r.pick(&[Op::True, Op::False, Op::Eq, Op::Neq]).clone(),
            DType::String => r.pick(&[Op::Eq, Op::Eq, Op::Neq, Op::Like, Op::NotLike, Op::Regex, Op::NotRegex]).clone(),
            _ => r.pick(&[Op::Eq, Op::Neq, Op::Gt, Op::Gte, Op::Lt, Op::Lte]).clone(),
        }
    };
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let vals = match op {
        Op::Empty | Op::Exists | Op::True | Op::False => None,
        _ => Some(
            (0..n)
                .map(|_| {
                    let known = r.pick(&p.pool).clone();
                    match (&p.ty, &op) {
                        (DType::Boolean, _) => known,
                        (DType::String, Op::Like | Op::NotLike) => {
                            let s = match known {
                                V::Str(s) => s.replace('\\', ""),
                                _ => unreachable!(),
                            };
                            V::Str(match r.below(5) {
                                0 => s,
                                1 => format!("{s}%"),
                                2 => format!("%{s}"),
                                3 => format!("%{s}%"),
                                _ => r.pick(&["_", "a_", "%", "_%", "%b_%"]).to_string(),
                            })
                        }
                        (DType::String, Op::Regex | Op::NotRegex) => V::Str(r.pick(&["^a", "b$", "a.b", "^$", "[0-9]+", "a|x", ".", "^A", "é", "", ".*"]).to_string()),
                        (DType::String, _) => {
                            if r.chance(1, 5) {
                                V::Str(r.pick(&["never seen", "a", "A"]).to_string())
                            } else {
                                known
                            }
                        }
                        _ => {
                            let d = dec_of(&known).unwrap();
                            let off = match p.ty {
                                DType::Timestamp => *r.pick(&[0, 0, 1, -1]) * MUL,
                                _ => *r.pick(&[0, 0, 0, MUL, -MUL, MUL / 2, 1000 * MUL]),
                            };
                            V::Dec(d + off)
                        }
                    }
                })
                .collect(),
        ),
    };
    F { prop: i, r: p.r(), op, vals }
}
impl Proj {
    /// the definitions of the custom events
    pub fn defs(&self) -> String {
        self.customs
            .iter()
            .map(|c| format!("{}: {:?}", c.id, c.events.iter().map(|(e, fs)| format!("{e:?} {:?}", fs.iter().map(|f| f.show()).collect::<Vec<_>>())).collect::<Vec<_>>()))
            .collect::<Vec<_>>()
            .join("; ")
    }
    pub fn event_keeps(&self, e: &EventRef, row: &Row) -> bool {
        match e {
            EventRef::RegularName(n) => self.events[row.event].0 == *n,
            EventRef::Regular(id) => self.events[row.event].1 == *id,
            EventRef::Custom(id) => {
                let c = self.customs.iter().find(|c| c.id == *id).unwrap();
                c.events.iter().any(|(e, fs)| self.event_keeps(e, row) && fs.iter().all(|f| f.keeps(&row.vals[f.prop])))
            }
        }
    }
    pub fn all_keep(&self, fs: &[F], vals: &[V]) -> bool {
        fs.iter().all(|f| f.keeps(&vals[f.prop]))
    }
    pub fn any_event(&self, r: &mut Rng) -> EventRef {
        match r.below(4) {
            0 => EventRef::Custom(r.pick(&self.customs).id),
            _ => EventRef::RegularName(r.pick(&self.events).0.clone()),
        }
    }
}
pub fn at(ms: i64) -> DateTime<Utc> {
    DateTime::from_timestamp_millis(ms).unwrap()
}
