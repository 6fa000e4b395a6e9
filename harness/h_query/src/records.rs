//! Q11: searches, single records and listings. Q10: other projects' data changes no answer.
use std::collections::BTreeMap;

use common::query::EventRef;
use common::query::PropertyRef;
use common::query::QueryTime;
use common::types::DType;
use common::types::SortDirection;
use common::types::*;
use common::GROUPS_COUNT;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use query::event_records;
use query::group_records;
use query::properties;
use serde_json::json;

use crate::e2e::*;
use crate::util::*;
use crate::world::*;

pub fn of_scalar(s: &datafusion_common::ScalarValue) -> V {
    match s.to_array() {
        Ok(a) => cell(&a, 0),
        Err(e) => V::Str(format!("{e}")),
    }
}
/// the columns of an event: what each property of the project must show
fn event_cols<'a>(p: &'a Proj) -> Vec<(PropertyRef, String, Box<dyn Fn(&Row) -> V + 'a>)> {
    let mut out: Vec<(PropertyRef, String, Box<dyn Fn(&Row) -> V + 'a>)> = vec![];
    let mut sys = |n: &str, f: Box<dyn Fn(&Row) -> V + 'a>| out.push((PropertyRef::Event(n.into()), n.into(), f));
    sys(COLUMN_PROJECT_ID, Box::new(|_| V::Str(p.name.clone())));
    for g in 0..GROUPS_COUNT {
        sys(
            &common::group_col(g),
            Box::new(move |r| match g {
                0 => V::Str(format!("user {}", r.user)),
                1 if r.company > 0 => V::Str(format!("company {}", r.company)),
                _ => V::Null,
            }),
        );
    }
    sys(COLUMN_CREATED_AT, Box::new(|r| V::Ts(r.ts)));
    sys(COLUMN_EVENT_ID, Box::new(|r| V::Int(r.id as i128)));
    sys(COLUMN_EVENT, Box::new(|r| V::Str(p.events[r.event].0.clone())));
    sys(COLUMN_IP, Box::new(|_| V::Null));
    for (i, q) in p.props[..p.own].iter().enumerate().filter(|(_, q)| q.gid.is_none()) {
        out.push((q.r(), q.name.clone(), Box::new(move |r| r.vals[i].clone())));
    }
    for (i, q) in p.props[..p.own].iter().enumerate().filter(|(_, q)| q.gid.is_some()) {
        out.push((q.r(), q.name.clone(), Box::new(move |r| r.vals[i].clone())));
    }
    out
}
fn rec_cols<'a>(p: &'a Proj, gid: usize) -> Vec<(PropertyRef, String, Box<dyn Fn(&Rec) -> V + 'a>)> {
    let mut out: Vec<(PropertyRef, String, Box<dyn Fn(&Rec) -> V + 'a>)> = vec![];
    let mut sys = |n: &str, f: Box<dyn Fn(&Rec) -> V + 'a>| out.push((PropertyRef::Group(n.into(), gid), n.into(), f));
    sys(GROUP_COLUMN_PROJECT_ID, Box::new(|_| V::Str(p.name.clone())));
    sys(GROUP_COLUMN_ID, Box::new(|r| V::Str(r.name.clone())));
    sys(GROUP_COLUMN_VERSION, Box::new(|r| V::Int(r.version as i128)));
    sys(GROUP_COLUMN_CREATED_AT, Box::new(|r| V::Ts(r.ts)));
    for (i, q) in p.props[..p.own].iter().enumerate().filter(|(_, q)| q.gid == Some(gid)) {
        out.push((q.r(), q.name.clone(), Box::new(move |r| r.vals[i].clone())));
    }
    out
}
fn show(v: &[V]) -> String {
    v.iter().map(|x| x.s()).collect::<Vec<_>>().join(",")
}
fn table(t: &query::ColumnarDataTable) -> Vec<Vec<V>> {
    let n = t.columns.first().map(|c| c.data.len()).unwrap_or(0);
    (0..n).map(|i| t.columns.iter().map(|c| cell(&c.data, i)).collect()).collect()
}
pub fn search_time(r: &mut Rng, now: i64) -> (QueryTime, i64, i64) {
    if r.chance(1, 3) {
        return (all_time(), T0 - 30 * DAY, T0 + 30 * DAY);
    }
    let u = r.pick(&[common::query::TimeIntervalUnit::Hour, common::query::TimeIntervalUnit::Day, common::query::TimeIntervalUnit::Week, common::query::TimeIntervalUnit::Month]).clone();
    time(r, &u, now)
}
pub fn records(m: &mut Mon, r: &mut Rng, run: &Run) {
    lost_after_flush(m, r, run);
    let worlds = m.n(6, 400);
    for wi in 0..worlds {
        if !m.within(40, 1200) {
            break;
        }
        let rows = *r.pick(&[20, 60, 130]);
        let recs = *r.pick(&[10, 24, 260]);
        let w = World::new(r, &Shape { projects: 2, rows, recs, props: 12, twins: true });
        for _ in 0..60 {
            if !m.within(40, 1200) {
                break;
            }
            let p = &w.projs[r.below(2)];
            match r.below(8) {
                0..=2 => event_search(m, r, run, &w, p),
                3..=4 => group_search(m, r, run, &w, p),
                5 => one_event(m, r, run, &w, p),
                6 => one_record(m, r, run, &w, p),
                _ => value_filters(m, r, run, &w, p),
            }
            if m.violated() {
                return;
            }
        }
        m.observed((wi, "world"), true);
    }
}
pub struct Search {
    pub now: i64,
    from: i64,
    to: i64,
    events: Option<Vec<(EventRef, Vec<F>)>>,
    global: Vec<F>,
    pub req: event_records::EventRecordsSearchRequest,
}
pub fn gen_event_search(r: &mut Rng, p: &Proj) -> Search {
    let now = T0 + 8 * DAY;
    let (qt, from, to) = search_time(r, now);
    let global = some_filters(r, p, 1);
    let events: Option<Vec<(EventRef, Vec<F>)>> =
        if r.bool() { None } else { Some((0..r.below(3)).map(|_| (p.any_event(r), some_filters(r, p, 1))).collect()) };
    let cols = event_cols(p);
    let properties = if r.chance(1, 3) { None } else { Some((0..r.below(5)).map(|_| r.pick(&cols).0.clone()).collect::<Vec<_>>()) };
    let opt = |r: &mut Rng, fs: &[F]| if fs.is_empty() && r.bool() { None } else { Some(fs.iter().map(|f| f.req()).collect()) };
    let req = event_records::EventRecordsSearchRequest {
        time: qt,
        events: events.as_ref().map(|es| es.iter().map(|(e, fs)| event_records::Event { event: e.clone(), filters: opt(r, fs) }).collect()),
        filters: opt(r, &global),
        properties,
    };
    Search { now, from, to, events, global, req }
}
pub fn run_event_search(run: &Run, w: &World, p: &Proj, now: i64, req: event_records::EventRecordsSearchRequest) -> Result<query::ColumnarDataTable, String> {
    let req = guarded(|| event_records::fix_search_request(&w.md, p.id, req)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
    guard(run, event_records::EventRecordsProvider::new(w.md.clone(), w.db.clone()).search(ctx(p, now), req))
}
/// asked columns, each once, names told apart by a number
fn asked<T>(cols: Vec<(PropertyRef, String, T)>, props: &Option<Vec<PropertyRef>>) -> Vec<(PropertyRef, String, T)> {
    let mut cols: Vec<Option<(PropertyRef, String, T)>> = cols.into_iter().map(Some).collect();
    let mut out: Vec<(PropertyRef, String, T)> = vec![];
    match props {
        Some(ps) if !ps.is_empty() => {
            for q in ps {
                if let Some(i) = cols.iter().position(|c| c.as_ref().map(|c| c.0 == *q).unwrap_or(false)) {
                    out.push(cols[i].take().unwrap());
                }
            }
        }
        _ => out = cols.into_iter().flatten().collect(),
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for c in &mut out {
        let n = seen.entry(c.1.clone()).or_default();
        *n += 1;
        if *n > 1 {
            c.1 = format!("{} {}", c.1, n);
        }
    }
    out
}
fn event_search(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let s = gen_event_search(r, p);
    let desc = || format!(
        "customs {} events searched: time {:?} global {:?} events {:?} properties {:?}",
        p.defs(),
        s.req.time,
        s.global.iter().map(|f| f.show()).collect::<Vec<_>>(),
        s.events.as_ref().map(|es| es.iter().map(|(e, fs)| format!("{e:?}: {:?}", fs.iter().map(|f| f.show()).collect::<Vec<_>>())).collect::<Vec<_>>()),
        s.req.properties
    );
    let mut rows: Vec<&Row> = p
        .rows
        .iter()
        .filter(|x| {
            x.ts >= s.from
                && x.ts <= s.to
                && p.all_keep(&s.global, &x.vals)
                && s.events.as_ref().map(|es| es.is_empty() || es.iter().any(|(e, fs)| p.event_keeps(e, x) && p.all_keep(fs, &x.vals))).unwrap_or(true)
        })
        .collect();
    rows.sort_by_key(|x| std::cmp::Reverse(x.id));
    if rows.len() > 100 {
        m.count("searches with more than a hundred matches", 1);
    }
    rows.truncate(100);
    m.count("event searches", 1);
    m.count("events expected", rows.len() as u64);
    let all = s.req.properties.as_ref().map(|v| v.is_empty()).unwrap_or(true);
    let cols = asked(event_cols(p), &s.req.properties);
    for (q, _, _) in &cols {
        m.observed(("column", format!("{q:?}")), true);
    }
    m.observed(("events", s.events.as_ref().map(|e| e.len()), s.global.len(), cols.len(), rows.len() / 8), !rows.is_empty());
    match run_event_search(run, w, p, s.now, s.req.clone()) {
        Err(e) => m.violation(&format!("event search fails: {}", kind(&e)), format!("{}: {e}", desc()), json!({})),
        Ok(t) => judge(m, "event search", &t, &cols, &rows, all, true, None, &desc),
    }
}
/// columns, values and order of a searched table
fn judge<T>(
    m: &mut Mon,
    what: &str,
    t: &query::ColumnarDataTable,
    cols: &[(PropertyRef, String, Box<dyn Fn(&T) -> V + '_>)],
    rows: &[&T],
    all: bool,
    ordered: bool,
    only: Option<usize>,
    desc: &dyn Fn() -> String,
) {
    // with no properties named, those that the events do not have may be there as well
    let mut at: Vec<usize> = vec![];
    let names: Vec<&str> = t.columns.iter().map(|c| c.name.as_str()).collect();
    for (q, n, _) in cols {
        let found: Vec<usize> = (0..t.columns.len()).filter(|i| t.columns[*i].property.as_ref() == Some(q)).collect();
        if found.len() != 1 || (!all && names[found[0]] != n) {
            m.violation(&format!("{what}: columns"), format!("{}: {q:?} should be one column {n}, columns {names:?}", desc()), json!({}));
            return;
        }
        at.push(found[0]);
    }
    let mut uniq: Vec<&str> = names.clone();
    uniq.sort();
    uniq.dedup();
    if uniq.len() != names.len() || (!all && at != (0..cols.len()).collect::<Vec<_>>()) || (!all && names.len() != cols.len()) {
        m.violation(&format!("{what}: columns"), format!("{}: columns {names:?}", desc()), json!({}));
        return;
    }
    let mut got: Vec<String> = table(t).iter().map(|x| show(&at.iter().map(|i| x[*i].clone()).collect::<Vec<_>>())).collect();
    let mut want: Vec<String> = rows.iter().map(|x| show(&cols.iter().map(|c| (c.2)(x)).collect::<Vec<_>>())).collect();
    if !ordered {
        got.sort();
        want.sort();
    }
    if let Some(n) = only {
        // any n of them
        let mut left = want.clone();
        let ok = got.len() == n
            && got.iter().all(|g| match left.iter().position(|x| x == g) {
                Some(i) => {
                    left.remove(i);
                    true
                }
                None => false,
            });
        m.check(ok, what, || format!("{}: got {got:?} want {n} of {want:?}", desc()));
        return;
    }
    m.check(got == want, what, || format!("{}: got {got:?} want {want:?}", desc()));
}
pub struct GSearch {
    pub now: i64,
    from: i64,
    to: i64,
    fs: Vec<F>,
    pub gid: usize,
    pub req: group_records::GroupRecordsSearchRequest,
}
pub fn gen_group_search(r: &mut Rng, p: &Proj) -> GSearch {
    let gid = r.below(2);
    let own: Vec<usize> = (0..p.props.len()).filter(|i| p.props[*i].gid == Some(gid)).collect();
    let now = T0 + 8 * DAY;
    let (qt, from, to) = search_time(r, now);
    let timed = r.bool();
    let fs: Vec<F> = if own.is_empty() { vec![] } else { (0..r.below(2)).map(|_| { let i = *r.pick(&own); filter_on(r, &p.props, i) }).collect() };
    let cols = rec_cols(p, gid);
    let properties = if r.chance(1, 3) { None } else { Some((0..r.below(4)).map(|_| r.pick(&cols).0.clone()).collect::<Vec<_>>()) };
    let sort = if r.bool() { None } else { Some((r.pick(&cols).0.clone(), if r.bool() { SortDirection::Asc } else { SortDirection::Desc })) };
    let req = group_records::GroupRecordsSearchRequest {
        time: if timed { Some(qt) } else { None },
        group_id: gid,
        filters: if fs.is_empty() && r.bool() { None } else { Some(fs.iter().map(|f| f.req()).collect()) },
        properties,
        sort,
    };
    let (from, to) = if timed { (from, to) } else { (i64::MIN, i64::MAX) };
    GSearch { now, from, to, fs, gid, req }
}
pub fn run_group_search(run: &Run, w: &World, p: &Proj, now: i64, req: group_records::GroupRecordsSearchRequest) -> Result<query::ColumnarDataTable, String> {
    let req = guarded(|| group_records::fix_search_request(&w.md, p.id, req)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
    guard(run, group_records::GroupRecordsProvider::new(w.md.clone(), w.db.clone()).search(ctx(p, now), req))
}
fn order(a: &V, b: &V, asc: bool) -> std::cmp::Ordering {
    match (a, b) {
        (V::Null, V::Null) => std::cmp::Ordering::Equal,
        (V::Null, _) => std::cmp::Ordering::Greater,
        (_, V::Null) => std::cmp::Ordering::Less,
        (a, b) if asc => a.partial_cmp(b).unwrap(),
        (a, b) => b.partial_cmp(a).unwrap(),
    }
}
fn group_search(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let s = gen_group_search(r, p);
    let desc = || format!("records of group {} searched: time {:?} filters {:?} properties {:?} sort {:?}", s.gid, s.req.time, s.fs.iter().map(|f| f.show()).collect::<Vec<_>>(), s.req.properties, s.req.sort);
    let mut rows: Vec<&Rec> = p.recs.iter().filter(|x| x.gid == s.gid && x.ts >= s.from && x.ts <= s.to && p.all_keep(&s.fs, &x.vals)).collect();
    m.count("group searches", 1);
    m.count("records expected", rows.len().min(100) as u64);
    let all = s.req.properties.as_ref().map(|v| v.is_empty()).unwrap_or(true);
    let cols = asked(rec_cols(p, s.gid), &s.req.properties);
    m.observed(("records", s.req.time.is_some(), s.fs.len(), s.req.sort.as_ref().map(|x| format!("{x:?}")), rows.len() / 8), !rows.is_empty());
    let t = match run_group_search(run, w, p, s.now, s.req.clone()) {
        Err(e) => {
            m.violation(&format!("group search fails: {}", kind(&e)), format!("{}: {e}", desc()), json!({}));
            return;
        }
        Ok(t) => t,
    };
    let total = rows.len();
    if total > 100 {
        m.count("searches with more than a hundred matches", 1);
    }
    if let Some((by, dir)) = &s.req.sort {
        let all_cols = rec_cols(p, s.gid);
        let c = all_cols.iter().find(|c| c.0 == *by).unwrap();
        let asc = *dir == SortDirection::Asc;
        rows.sort_by(|a, b| order(&(c.2)(a), &(c.2)(b), asc));
        m.count("sorted group searches", 1);
        // ties at the end of the hundred may fall either way
        if total > 100 {
            let last = (c.2)(rows[99]);
            let sure: Vec<&Rec> = rows.iter().copied().filter(|x| order(&(c.2)(x), &last, asc).is_lt()).collect();
            let may: Vec<&Rec> = rows.iter().copied().filter(|x| order(&(c.2)(x), &last, asc).is_le()).collect();
            judge(m, "group search", &t, &cols, &may, all, false, Some(100), &desc);
            let mut got: Vec<String> = table(&t).iter().map(|x| show(x)).collect();
            got.truncate(sure.len());
        } else {
            judge(m, "group search", &t, &cols, &rows, all, false, None, &desc);
        }
        // the order, where the column is there to be seen
        if let Some(i) = t.columns.iter().position(|x| x.property.as_ref() == Some(by)) {
            let got: Vec<V> = table(&t).iter().map(|x| x[i].clone()).collect();
            let want: Vec<V> = rows.iter().take(100).map(|x| (c.2)(x)).collect();
            m.count("orders compared", 1);
            m.check(got == want, "group search: order", || format!("{}: got {} want {}", desc(), show(&got), show(&want)));
        }
        return;
    }
    judge(m, "group search", &t, &cols, &rows, all, false, if total > 100 { Some(100) } else { None }, &desc);
}
fn judge_one(m: &mut Mon, what: &str, got: &[query::PropertyAndValue], want: Vec<(PropertyRef, V)>, desc: &dyn Fn() -> String) {
    for (q, v) in want {
        let found: Vec<V> = got.iter().filter(|x| x.property == q).map(|x| of_scalar(&x.value)).collect();
        m.count("values of single records", 1);
        m.check(found == vec![v.clone()], what, || format!("{}: {q:?} is {found:?}, want {v:?}", desc()));
    }
}
fn one_event(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let top = p.rows.len() as i64;
    let id = r.range(1, top + 1) ;
    let row = p.rows.iter().find(|x| x.id == id);
    let desc = || format!("event {id} of project {}", p.id);
    m.count("single events", 1);
    let got = guard(run, event_records::EventRecordsProvider::new(w.md.clone(), w.db.clone()).get_by_id(ctx(p, T0), id as u64));
    m.observed(("event", row.is_some()), true);
    match (row, got) {
        (None, Err(e)) if e.starts_with("error") => m.count("unknown ids refused", 1),
        (None, g) => m.violation("an event that is not there", format!("{}: {:?}", desc(), g.map(|x| x.properties.len())), json!({})),
        (Some(_), Err(e)) => m.violation(&format!("single event fails: {}", kind(&e)), format!("{}: {e}", desc()), json!({})),
        (Some(row), Ok(e)) => {
            let want = event_cols(p).iter().map(|c| (c.0.clone(), (c.2)(row))).collect();
            judge_one(m, "single event", &e.properties, want, &desc);
        }
    }
}
fn one_record(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let gid = r.below(2);
    let (name, rec) = match p.recs.iter().filter(|x| x.gid == gid).collect::<Vec<_>>() {
        v if !v.is_empty() && r.chance(4, 5) => {
            let x = *r.pick(&v);
            (x.name.clone(), Some(x))
        }
        _ => ("nobody".to_string(), None),
    };
    let desc = || format!("record {name} of group {gid} of project {}", p.id);
    m.count("single records", 1);
    m.observed(("record", rec.is_some()), true);
    let got = guard(run, group_records::GroupRecordsProvider::new(w.md.clone(), w.db.clone()).get_by_id(ctx(p, T0), gid, name.clone()));
    match (rec, got) {
        (None, Err(e)) if e.starts_with("error") => m.count("unknown ids refused", 1),
        (None, g) => m.violation("a record that is not there", format!("{}: {:?}", desc(), g.map(|x| x.properties.len())), json!({})),
        (Some(_), Err(e)) => m.violation(&format!("single record fails: {}", kind(&e)), format!("{}: {e}", desc()), json!({})),
        (Some(x), Ok(e)) => {
            let want = rec_cols(p, gid).iter().map(|c| (c.0.clone(), (c.2)(x))).collect();
            judge_one(m, "single record", &e.properties, want, &desc);
        }
    }
}
/// The known finding: tables of groups are made with two key columns and replace by the last of
/// them, so a flush between two records of a project leaves one of them.
fn lost_after_flush(m: &mut Mon, r: &mut Rng, run: &Run) {
    let mut w = World::new(r, &Shape { projects: 1, rows: 0, recs: 0, props: 3, twins: false });
    for id in 1..=2 {
        w.put_rec(0, Rec { gid: 0, id, name: format!("user {id}"), version: 1, ts: T0, vals: vec![V::Null; 3] });
        w.flush_groups();
    }
    let p = &w.projs[0];
    let req = group_records::GroupRecordsSearchRequest { time: None, group_id: 0, filters: None, properties: Some(vec![PropertyRef::Group("id".into(), 0)]), sort: None };
    match run_group_search(run, &w, p, T0, req) {
        Err(e) => m.violation(&format!("group search fails: {}", kind(&e)), format!("two records, flushed one by one: {e}"), json!({})),
        Ok(t) => {
            m.count("records flushed apart", 2);
            let mut got: Vec<String> = table(&t).iter().map(|x| show(x)).collect();
            got.sort();
            m.check(got == vec!["\"user 1\"", "\"user 2\""], "group records flushed apart", || format!("user 1 and user 2 written and flushed one after the other; a search finds {got:?}"));
        }
    }
}

/// Q10: the answers of one project before and after the others change
pub fn isolation(m: &mut Mon, r: &mut Rng, run: &Run) {
    let worlds = m.n(8, 400);
    for wi in 0..worlds {
        if !m.within(45, 1200) {
            break;
        }
        let n = 2 + r.below(2);
        let mut w = World::new(r, &Shape { projects: n, rows: 40, recs: 0, props: 10, twins: wi % 2 == 0 });
        for p in 0..w.projs.len() {
            w.records(r, p, 8);
        }
        let me = r.below(w.projs.len());
        let mut asked: Vec<(String, Ask)> = vec![];
        for _ in 0..24 {
            let p = &w.projs[me];
            let a = ask(r, p);
            let before = run_ask(run, &w, p, &a);
            m.count(&format!("requests {}", a.kind()), 1);
            asked.push((before, a));
        }
        // the others live on
        for round in 0..2 {
            for _ in 0..30 {
                let o = (me + 1 + r.below(w.projs.len() - 1)) % w.projs.len();
                match r.below(6) {
                    0 => w.records(r, o, 2),
                    _ => w.row(r, o),
                }
                m.count("foreign records added", 1);
            }
            if round == 0 {
                let o = (me + 1 + r.below(w.projs.len() - 1)) % w.projs.len();
                w.more(r, o);
            }
            if r.bool() {
                w.flush();
            }
            for (before, a) in &asked {
                let p = &w.projs[me];
                let after = run_ask(run, &w, p, a);
                m.count("answers compared", 1);
                m.observed((a.kind(), before.len() / 40), before.len() > 4);
                if after.starts_with("panic") || after.starts_with("no answer") {
                    m.violation(&format!("isolation: {} fails", a.kind()), format!("{a:?}: {after}"), json!({}));
                    return;
                }
                m.check(*before == after, &format!("isolation: {}", a.kind()), || format!("{a:?}: with more data of other projects, {before} became {after}"));
            }
            if m.violated() {
                return;
            }
        }
        m.observed((wi, "world"), true);
    }
}
#[derive(Debug)]
pub enum Ask {
    Seg(i64, common::event_segmentation::EventSegmentationRequest),
    Events(i64, event_records::EventRecordsSearchRequest),
    Groups(i64, group_records::GroupRecordsSearchRequest),
    Event(u64),
    Group(usize, String),
    Values(properties::PropertyValues),
}
impl Ask {
    fn kind(&self) -> &'static str {
        match self {
            Ask::Seg(..) => "segmentation",
            Ask::Events(..) => "event search",
            Ask::Groups(..) => "group search",
            Ask::Event(_) => "single event",
            Ask::Group(..) => "single record",
            Ask::Values(_) => "property values",
        }
    }
}
fn ask(r: &mut Rng, p: &Proj) -> Ask {
    match r.below(10) {
        0..=3 => {
            let s = gen_seg(r, p);
            Ask::Seg(s.now, s.req)
        }
        4..=5 => {
            let s = gen_event_search(r, p);
            Ask::Events(s.now, s.req)
        }
        6 => {
            let s = gen_group_search(r, p);
            Ask::Groups(s.now, s.req)
        }
        7 => Ask::Event(1 + r.below(p.rows.len() + 20) as u64),
        8 => Ask::Group(r.below(2), r.pick(&["g0-x-2", "g1-x-2", "g0-y-1", "g1-y-1", "nobody"]).to_string()),
        _ => {
            let q = r.pick(&p.props[..p.ne]).clone();
            let event = if r.bool() { None } else { Some(p.any_event(r)) };
            Ask::Values(properties::PropertyValues { property: q.r(), event, filter: None })
        }
    }
}
fn text(t: query::ColumnarDataTable, sorted: bool) -> String {
    let mut rows: Vec<String> = table(&t).iter().map(|x| show(x)).collect();
    if !sorted {
        rows.sort();
    }
    // columns of properties that another project brought are empty here and may come and go
    let _ = DType::String;
    format!("{:?}: {rows:?}", t.columns.iter().map(|c| &c.name).collect::<Vec<_>>())
}
fn run_ask(run: &Run, w: &World, p: &Proj, a: &Ask) -> String {
    let got = match a {
        Ask::Seg(now, req) => (|| {
            let req = guarded(|| query::event_segmentation::fix_request(&w.md, p.id, req.clone())).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
            guard(run, query::event_segmentation::EventSegmentationProvider::new(w.md.clone(), w.db.clone()).event_segmentation(ctx(p, *now), req))
        })()
        .map(|t| text(t, false)),
        Ask::Events(now, req) => run_event_search(run, w, p, *now, req.clone()).map(|t| text(t, true)),
        Ask::Groups(now, req) => run_group_search(run, w, p, *now, req.clone()).map(|t| text(t, false)),
        Ask::Event(id) => guard(run, event_records::EventRecordsProvider::new(w.md.clone(), w.db.clone()).get_by_id(ctx(p, T0), *id)).map(|e| props_text(&e.properties)),
        Ask::Group(g, id) => guard(run, group_records::GroupRecordsProvider::new(w.md.clone(), w.db.clone()).get_by_id(ctx(p, T0), *g, id.clone())).map(|e| props_text(&e.properties)),
        Ask::Values(req) => guard(run, properties::PropertiesProvider::new(w.md.clone(), w.db.clone()).values(ctx(p, T0), req.clone()))
            .map(|a| show(&(0..a.len()).map(|i| cell(&a, i)).collect::<Vec<_>>())),
    };
    got.unwrap_or_else(|e| e)
}
fn props_text(v: &[query::PropertyAndValue]) -> String {
    v.iter().map(|x| format!("{:?}={}", x.property, of_scalar(&x.value).s())).collect::<Vec<_>>().join(",")
}
