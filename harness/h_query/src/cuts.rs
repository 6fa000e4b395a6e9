//! The same requests over the same rows, handed to the operators in different batches and
//! partitions: the answers must be the same.
use std::sync::Arc;

use common::event_segmentation as es;
use common::group_col;
use datafusion_expr::LogicalPlan;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use query::context::Context;
use storage::db::OptiDBImpl;

use crate::e2e;
use crate::funnel;
use crate::records;
use crate::util::*;
use crate::world::*;

fn stored(run: &Run, db: &Arc<OptiDBImpl>, c: &Context, name: &str) -> Result<Table, String> {
    let n = db.schema1(name).map_err(|e| e.to_string())?.fields().len();
    let (_, _, plan) = query::initial_plan(c, db, name.to_string(), (0..n).collect()).map_err(|e| e.to_string())?;
    let o = run.run(plan)?;
    Ok(Table { cols: o.cols, rows: o.rows })
}
/// rows as their exact cells and their floating ones
fn split(o: &Out) -> Vec<(String, Vec<f64>)> {
    let mut v: Vec<(String, Vec<f64>)> = o
        .rows
        .iter()
        .map(|r| {
            let mut s = String::new();
            let mut f = vec![];
            for c in r {
                match c {
                    V::F(x) => {
                        f.push(*x);
                        s.push_str("#,");
                    }
                    c => {
                        s.push_str(&c.s());
                        s.push(',');
                    }
                }
            }
            (s, f)
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal)));
    v
}
fn differ(a: &Out, b: &Out) -> Option<String> {
    if a.names() != b.names() {
        return Some(format!("columns {:?} and {:?}", a.names(), b.names()));
    }
    let (x, y) = (split(a), split(b));
    if x.len() != y.len() {
        return Some(format!("{} and {} rows", x.len(), y.len()));
    }
    for (p, q) in x.iter().zip(&y) {
        let close = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0);
        if p.0 != q.0 || !p.1.iter().zip(&q.1).all(|(a, b)| close(*a, *b)) {
            return Some(format!("row {p:?} and {q:?}"));
        }
    }
    None
}
struct Case {
    kind: &'static str,
    table: String,
    now: i64,
    show: String,
    build: Box<dyn Fn(LogicalPlan) -> Result<LogicalPlan, String>>,
}
fn case(r: &mut Rng, w: &World, p: &Proj) -> Result<Case, String> {
    let md = w.md.clone();
    let id = p.id;
    let pr = |e: query::error::QueryError| format!("error: {e}");
    macro_rules! fixed {
        ($e:expr) => {
            guarded(|| $e).map_err(|e| format!("panic: {e}"))?.map_err(pr)?
        };
    }
    macro_rules! case {
        ($kind:expr, $table:expr, $now:expr, $req:ident, $c:ident, $input:ident, $e:expr) => {{
            let now = $now;
            let $c = e2e::ctx(p, now);
            let show = format!("{:?}", $req);
            Case {
                kind: $kind,
                table: $table,
                now,
                show,
                build: Box::new(move |$input| guarded(|| $e).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))),
            }
        }};
    }
    Ok(match r.below(8) {
        0..=2 => {
            let s = e2e::gen_seg(r, p);
            let req: es::EventSegmentationRequest = fixed!(query::event_segmentation::fix_request(&md, id, s.req.clone()));
            case!("segmentation", common::types::TABLE_EVENTS.to_string(), s.now, req, c, input, query::event_segmentation::LogicalPlanBuilder::build(c.clone(), md.clone(), input, req.clone()))
        }
        3..=5 => {
            let a = funnel::gen(r, p);
            let req = fixed!(query::funnel::fix_request(&md, id, a.req.clone()));
            case!("funnel", common::types::TABLE_EVENTS.to_string(), a.now, req, c, input, query::funnel::build(c.clone(), md.clone(), input, req.clone()))
        }
        6 => {
            let s = records::gen_event_search(r, p);
            let req = fixed!(query::event_records::fix_search_request(&md, id, s.req.clone()));
            case!("event search", common::types::TABLE_EVENTS.to_string(), s.now, req, c, input, query::event_records::build_search_plan(c.clone(), md.clone(), input, req.clone()).map(|x| x.0))
        }
        _ => {
            let s = records::gen_group_search(r, p);
            let req = fixed!(query::group_records::fix_search_request(&md, id, s.req.clone()));
            case!("group search", group_col(s.gid), s.now, req, c, input, query::group_records::build_search_plan(c.clone(), md.clone(), input, req.clone()).map(|x| x.0))
        }
    })
}
pub fn requests(m: &mut Mon, r: &mut Rng, run: &Run) {
    let worlds = m.n(3, 300);
    for wi in 0..worlds {
        if !m.within(40, 1300) {
            break;
        }
        let mut w = World::new(r, &Shape { projects: 2, rows: 0, recs: 30, props: 12, twins: false });
        funnel::populate(r, &mut w);
        for _ in 0..40 {
            if !m.within(40, 1300) {
                break;
            }
            let p = &w.projs[r.below(2)];
            one(m, r, run, &w, p);
            if m.violated() {
                return;
            }
        }
        m.observed((wi, "world"), true);
    }
}
fn one(m: &mut Mon, r: &mut Rng, run: &Run, w: &World, p: &Proj) {
    let c = match case(r, w, p) {
        Ok(c) => c,
        Err(e) => {
            m.count(&format!("requests refused: {}", e2e::kind(&e)), 1);
            return;
        }
    };
    let t = match stored(run, &w.db, &e2e::ctx(p, c.now), &c.table) {
        Ok(t) => t,
        Err(e) => {
            m.violation("scan", format!("the rows of {} cannot be read: {e}", c.table), serde_json::json!({}));
            return;
        }
    };
    let mut first: Option<(String, Result<Out, String>)> = None;
    for k in 0..5 {
        let mode = if k < 2 { k } else { 2 };
        let parts = *r.pick(&[1, 1, 2, 3, 8]);
        let batch = *r.pick(&[1, 2, 7, 8192]);
        let bs = t.cut(r, mode);
        let how = format!("{} batches handed on by {batch} in {parts} partitions", bs.len());
        if bs.iter().any(|b| b.num_rows() == 0) {
            m.count("runs with empty batches", 1);
        }
        let got = match (c.build)(run.plain(&t, bs)) {
            Ok(plan) => run.run_cut(plan, parts, batch),
            Err(e) => Err(e),
        };
        m.count(&format!("runs: {}", c.kind), 1);
        m.count("runs", 1);
        match &first {
            None => {
                if let Ok(o) = &got {
                    m.count("rows of answers", o.rows.len() as u64);
                    if c.kind == "segmentation" && o.rows.len() > 49 {
                        m.count("answers that may be cut off", 1);
                        return;
                    }
                } else {
                    m.count("requests that fail", 1);
                }
                first = Some((how, got))
            }
            Some((h, f)) => {
                let d = match (f, &got) {
                    (Ok(a), Ok(b)) => differ(a, b),
                    (Ok(_), Err(e)) => Some(format!("an answer and {e}")),
                    (Err(e), Ok(_)) => Some(format!("{e} and an answer")),
                    (Err(_), Err(_)) => None,
                };
                if let Some(d) = d {
                    m.violation(
                        c.kind,
                        format!("{} over {} rows as {h}, then as {how}: {d}", c.kind, t.rows.len()),
                        serde_json::json!({"request": c.show}),
                    );
                    return;
                }
                m.count("answers compared", 1);
                m.observed((c.kind, mode, parts, batch, matches!(&got, Ok(o) if !o.rows.is_empty())), true);
            }
        }
    }
}
