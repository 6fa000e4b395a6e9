//! Q05, Q06, Q07, Q09, Q12, Q13, Q14: the operators, one at a time, against what they mean.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::Arc;

use arrow::datatypes::DataType;
use arrow::record_batch::RecordBatch;
use datafusion_common::Column;
use datafusion_common::ScalarValue;
use datafusion_expr::col;
use datafusion_expr::lit;
use datafusion_expr::Expr;
use datafusion_expr::LogicalPlan;
use metadata::dictionaries::Dictionaries;
use metadata::dictionaries::SingleDictionaryProvider;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use query::logical_plan::add_string_column::AddStringColumnNode;
use query::logical_plan::aggregate_columns::AggregateAndSortColumnsNode;
use query::logical_plan::dictionary_decode::DictionaryDecodeNode;
use query::logical_plan::limit_groups::LimitGroupsNode;
use query::logical_plan::merge::MergeNode;
use query::logical_plan::pivot::PivotNode;
use query::logical_plan::rename_column_rows::RenameColumnRowsNode;
use query::logical_plan::rename_columns::RenameColumnsNode;
use query::logical_plan::reorder_columns::ReorderColumnsNode;
use query::logical_plan::segment::AggregateFunction as SegAgg;
use query::logical_plan::segment::Operator as SegOp;
use query::logical_plan::segment::SegmentExpr;
use query::logical_plan::segment::SegmentNode;
use query::logical_plan::segment::TimeRange;
use query::logical_plan::unpivot::UnpivotNode;
use query::logical_plan::SortField;
use serde_json::json;

use crate::agg;
use crate::agg::short;
use crate::agg::A;
use crate::util::*;

pub fn any_type(r: &mut Rng) -> DataType {
    let t = [
        DataType::Int8,
        DataType::Int16,
        DataType::Int32,
        DataType::Int64,
        DataType::UInt8,
        DataType::UInt16,
        DataType::UInt32,
        DataType::UInt64,
        DataType::Float64,
        DataType::Boolean,
        DataType::Utf8,
        dec(),
        ts(),
    ];
    r.pick(&t).clone()
}
fn n_rows(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 2 + r.below(3),
        _ => 1 + r.below(30),
    }
}
pub fn random_table(r: &mut Rng, names: &[String], types: &[DataType], rows: usize, few: bool) -> Table {
    Table {
        cols: names.iter().cloned().zip(types.iter().cloned()).collect(),
        rows: (0..rows).map(|_| types.iter().map(|t| value(r, t, few, true)).collect()).collect(),
    }
}
fn lines(t: &Table) -> Vec<String> {
    t.rows.iter().map(|r| line(&t.cols, r)).collect()
}
fn cells(r: &[V]) -> String {
    r.iter().map(|v| v.s()).collect::<Vec<_>>().join(" | ")
}

/// runs the plan over the table whole and in random cuts; each time judged by `judge`
fn cuts(
    m: &mut Mon,
    r: &mut Rng,
    run: &Run,
    op: &str,
    t: &Table,
    mk: &dyn Fn(LogicalPlan) -> Result<LogicalPlan, String>,
    judge: &mut dyn FnMut(&mut Mon, &Out) -> Option<String>,
) {
    for mode in 0..3 {
        let b = t.cut(r, mode);
        let nb = b.len();
        let p = match guarded(|| mk(run.plain(t, b))).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            Ok(p) => p,
            Err(e) => {
                m.violation(&format!("{op}: cannot be planned"), format!("{:?}: {e}", t.cols), json!({}));
                return;
            }
        };
        match run.run(p) {
            Err(e) => {
                m.violation(&format!("{op}: fails: {}", short(&e)), format!("{:?}, {} rows in {nb} batches: {e}", t.cols, t.rows.len()), json!({"rows": lines(t)}));
                return;
            }
            Ok(o) => {
                m.count("operator runs", 1);
                m.count("batches fed", nb as u64);
                if let Some(d) = judge(m, &o) {
                    m.violation(
                        &format!("{op}: wrong result{}", if mode == 0 { "" } else { " over several batches" }),
                        format!("{} rows in {nb} batches: {d}", t.rows.len()),
                        json!({"columns": format!("{:?}", t.cols), "rows": lines(t), "got": o.lines()}),
                    );
                    return;
                }
            }
        }
    }
}

fn exact(want: Vec<String>, names: Vec<String>) -> impl FnMut(&mut Mon, &Out) -> Option<String> {
    move |_, o| {
        if o.names() != names {
            return Some(format!("columns {:?}, want {names:?}", o.names()));
        }
        let got: Vec<String> = o.rows.iter().map(|r| cells(r)).collect();
        diff(&got, &want)
    }
}

fn names(n: usize, p: &str) -> Vec<String> {
    (0..n).map(|i| format!("{p}{i}")).collect()
}

// ------------------------------------------------------------------ Q06
pub fn pivots(m: &mut Mon, r: &mut Rng, run: &Run) {
    let n = m.n(500, 20000);
    for case in 0..n {
        if !m.within(50, 900) {
            break;
        }
        let (ng, nv) = (r.below(4), 1 + r.below(5));
        let mut cols: Vec<(String, DataType)> = (0..ng).map(|i| (format!("g{i}"), any_type(r))).collect();
        // pivoting groups are hashed columns
        let vnames = names(nv, "v");
        for v in &vnames {
            let at = r.below(cols.len() + 1);
            cols.insert(at, (v.clone(), dec()));
        }
        let rows = if case % 97 == 5 { 1500 + r.below(3000) } else { n_rows(r) };
        let few = r.bool();
        let ns: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
        let ts_: Vec<DataType> = cols.iter().map(|c| c.1.clone()).collect();
        let mut t = random_table(r, &ns, &ts_, rows, few && rows < 1000);
        let unp: Vec<String> = {
            let mut u = vnames.clone();
            r.shuffle(&mut u);
            if r.chance(1, 3) {
                u.truncate(1 + r.below(nv));
            }
            u
        };
        // unpivot
        let rest: Vec<usize> = (0..cols.len()).filter(|i| !unp.contains(&cols[*i].0)).collect();
        let mut want = vec![];
        for row in &t.rows {
            for name in &unp {
                let mut o: Vec<V> = rest.iter().map(|i| row[*i].clone()).collect();
                o.push(V::Str(name.clone()));
                o.push(row[t.col(name)].clone());
                want.push(cells(&o));
            }
        }
        want.sort();
        let mut wn: Vec<String> = rest.iter().map(|i| cols[*i].0.clone()).collect();
        wn.extend(["name".to_string(), "value".to_string()]);
        let u = unp.clone();
        let wn2 = wn.clone();
        cuts(
            m,
            r,
            run,
            "unpivot",
            &t,
            &|i| Ok(Run::ext(UnpivotNode::try_new(i, u.clone(), "name".into(), "value".into()).map_err(|e| e.to_string())?)),
            &mut |_, o| {
                if o.names() != wn2 {
                    return Some(format!("columns {:?}, want {wn2:?}", o.names()));
                }
                let mut got: Vec<String> = o.rows.iter().map(|r| cells(r)).collect();
                got.sort();
                diff(&got, &want)
            },
        );
        m.observed(("unpivot", case), rows > 1);
        m.count("cells unpivoted", (rows * unp.len()) as u64);

        // unpivot then pivot restores a table whose groups are different
        let all: Vec<String> = vnames.clone();
        let gidx: Vec<usize> = (0..cols.len()).filter(|i| !all.contains(&cols[*i].0)).collect();
        if !gidx.is_empty() {
            let mut seen = BTreeSet::new();
            t.rows.retain(|row| seen.insert(gidx.iter().map(|i| row[*i].s()).collect::<Vec<_>>()));
            let mut want: Vec<String> = t
                .rows
                .iter()
                .map(|row| cells(&gidx.iter().map(|i| row[*i].clone()).chain(all.iter().map(|v| row[t.col(v)].clone())).collect::<Vec<_>>()))
                .collect();
            want.sort();
            let all2 = all.clone();
            cuts(
                m,
                r,
                run,
                "unpivot and pivot",
                &t,
                &|i| {
                    let u = Run::ext(UnpivotNode::try_new(i, all2.clone(), "name".into(), "value".into()).map_err(|e| e.to_string())?);
                    Ok(Run::ext(PivotNode::try_new(u, Column::from_name("name"), Column::from_name("value"), all2.clone()).map_err(|e| e.to_string())?))
                },
                &mut |_, o| {
                    let mut got: Vec<String> = o.rows.iter().map(|r| cells(r)).collect();
                    got.sort();
                    diff(&got, &want)
                },
            );
            m.count("round trips", 1);
        }

        // pivot of sparse cells
        let mut cells_: BTreeMap<Vec<String>, (Vec<V>, BTreeMap<String, V>)> = BTreeMap::new();
        let ng = ng.max(1);
        let gt: Vec<DataType> = (0..ng).map(|_| any_type(r)).collect();
        let vt = if r.bool() { dec() } else { r.pick(&[DataType::Int64, DataType::Float64, DataType::Utf8, DataType::Boolean]).clone() };
        // the names of pivoted columns may be timestamps
        let rc: Vec<String> = names(1 + r.below(6), "c");
        let mut c2: Vec<(String, DataType)> = (0..ng).map(|i| (format!("g{i}"), gt[i].clone())).collect();
        c2.push(("name".into(), DataType::Utf8));
        c2.push(("value".into(), vt.clone()));
        let mut rows2 = vec![];
        let big = case % 61 == 7;
        for k in 0..if big { 2500 } else { 1 + n_rows(r) } {
            let mut row: Vec<V> = gt.iter().map(|t| value(r, t, true, true)).collect();
            if big {
                row[0] = match &gt[0] {
                    DataType::Int64 | DataType::Int32 => V::Int(k as i128 / 2),
                    DataType::Utf8 => V::Str(format!("w{}", k / 2)),
                    _ => row[0].clone(),
                };
            }
            // the last columns first appear late
            let name = if big { rc[(k * rc.len() / 2500).min(rc.len() - 1)].clone() } else { r.pick(&rc).clone() };
            let key: Vec<String> = row.iter().map(|v| v.s()).collect();
            let e = cells_.entry(key).or_insert_with(|| (row.clone(), BTreeMap::new()));
            if e.1.contains_key(&name) {
                continue;
            }
            let v = value(r, &vt, false, true);
            e.1.insert(name.clone(), v.clone());
            row.push(V::Str(name));
            row.push(v);
            rows2.push(row);
        }
        let t2 = Table { cols: c2, rows: rows2 };
        let mut want: Vec<String> = cells_
            .values()
            .map(|(g, cs)| cells(&g.iter().cloned().chain(rc.iter().map(|c| cs.get(c).cloned().unwrap_or(V::Null))).collect::<Vec<_>>()))
            .collect();
        want.sort();
        let wn: Vec<String> = names(ng, "g").into_iter().chain(rc.clone()).collect();
        let rc2 = rc.clone();
        cuts(
            m,
            r,
            run,
            "pivot",
            &t2,
            &|i| Ok(Run::ext(PivotNode::try_new(i, Column::from_name("name"), Column::from_name("value"), rc2.clone()).map_err(|e| e.to_string())?)),
            &mut |_, o| {
                if o.names() != wn {
                    return Some(format!("columns {:?}, want {wn:?}", o.names()));
                }
                let mut got: Vec<String> = o.rows.iter().map(|r| cells(r)).collect();
                got.sort();
                diff(&got, &want)
            },
        );
        m.observed(("pivot", case), t2.rows.len() > 1);
        m.count("cells pivoted", t2.rows.len() as u64);
        if big {
            m.count("pivots of more than a thousand groups", 1);
        }
    }
}

// ------------------------------------------------------------------ Q07
pub fn combining(m: &mut Mon, r: &mut Rng, run: &Run) {
    let n = m.n(500, 20000);
    for case in 0..n {
        if !m.within(50, 900) {
            break;
        }
        // merge
        let k = 1 + r.below(4);
        let pool: Vec<(String, DataType)> = (0..6).map(|i| (format!("c{i}"), any_type(r))).collect();
        let tabs: Vec<Table> = (0..k)
            .map(|_| {
                let mut p = pool.clone();
                if !r.chance(1, 3) {
                    r.shuffle(&mut p);
                }
                p.truncate(1 + r.below(6));
                let rows = n_rows(r);
                Table { rows: (0..rows).map(|_| p.iter().map(|c| value(r, &c.1, false, true)).collect()).collect(), cols: p }
            })
            .collect();
        let named = r.chance(2, 3);
        let labels: Vec<String> = (0..k).map(|i| if r.chance(1, 5) { "same".to_string() } else { format!("series {i}") }).collect();
        let mut want: Vec<String> = vec![];
        let mut allc: Vec<String> = vec![];
        for t in &tabs {
            for c in &t.cols {
                if !allc.contains(&c.0) {
                    allc.push(c.0.clone());
                }
            }
        }
        for (t, l) in tabs.iter().zip(&labels) {
            for row in &t.rows {
                let mut mm: BTreeMap<String, V> = allc.iter().map(|c| (c.clone(), V::Null)).collect();
                for (c, v) in t.cols.iter().zip(row) {
                    mm.insert(c.0.clone(), v.clone());
                }
                if named {
                    mm.insert("series".into(), V::Str(l.clone()));
                }
                want.push(line_of(&mm));
            }
        }
        for mode in 0..3 {
            let ins: Vec<LogicalPlan> = tabs
                .iter()
                .map(|t| {
                    let b = t.cut(r, mode);
                    run.plain(t, b)
                })
                .collect();
            let res = MergeNode::try_new(ins, named.then(|| ("series".to_string(), labels.clone())))
                .map_err(|e| format!("plan: {e}"))
                .and_then(|nd| run.run(Run::ext(nd)));
            match res {
                Err(e) => {
                    m.violation(&format!("merge: fails: {}", short(&e)), e, json!({}));
                    break;
                }
                Ok(o) => {
                    m.count("operator runs", 1);
                    if let Some(d) = diff(&o.lines(), &want) {
                        m.violation("merge: wrong rows", format!("{k} series: {d}"), json!({"got": o.lines(), "want": want}));
                        break;
                    }
                }
            }
        }
        m.count("series merged", k as u64);
        m.observed(("merge", case), k > 1 && !want.is_empty());

        // one table through the column operators
        let nc = 1 + r.below(6);
        let ns = names(nc, "c");
        let types: Vec<DataType> = (0..nc).map(|_| any_type(r)).collect();
        let rows = n_rows(r);
        let t = random_table(r, &ns, &types, rows, false);
        let all: Vec<String> = t.rows.iter().map(|r| cells(r)).collect();

        let label = r.pick(&WORDS).to_string();
        let want = t.rows.iter().map(|r| format!("{} | {}", V::Str(label.clone()).s(), cells(r))).collect();
        let wn = std::iter::once("label".to_string()).chain(ns.clone()).collect();
        let l2 = label.clone();
        cuts(
            m,
            r,
            run,
            "added column",
            &t,
            &|i| Ok(Run::ext(AddStringColumnNode::try_new(i, ("label".to_string(), l2.clone())).map_err(|e| e.to_string())?)),
            &mut exact(want, wn),
        );

        let mut ord = ns.clone();
        r.shuffle(&mut ord);
        ord.truncate(r.below(nc + 1));
        let fin: Vec<String> = ord.iter().cloned().chain(ns.iter().filter(|c| !ord.contains(c)).cloned()).collect();
        let want = t.rows.iter().map(|row| cells(&fin.iter().map(|c| row[t.col(c)].clone()).collect::<Vec<_>>())).collect();
        cuts(
            m,
            r,
            run,
            "reordered columns",
            &t,
            &|i| Ok(Run::ext(ReorderColumnsNode::try_new(i, ord.clone()).map_err(|e| e.to_string())?)),
            &mut exact(want, fin.clone()),
        );

        let mut ren: Vec<(String, String)> = ns.iter().filter(|_| r.bool()).map(|c| (c.clone(), format!("{c} renamed"))).collect();
        if ren.len() > 1 && r.chance(1, 3) {
            // names exchanged
            ren = vec![(ren[0].0.clone(), ren[1].0.clone()), (ren[1].0.clone(), ren[0].0.clone())];
        }
        r.shuffle(&mut ren);
        let wn = ns.iter().map(|c| ren.iter().find(|x| x.0 == *c).map(|x| x.1.clone()).unwrap_or(c.clone())).collect();
        cuts(
            m,
            r,
            run,
            "renamed columns",
            &t,
            &|i| Ok(Run::ext(RenameColumnsNode::try_new(i, ren.clone()).map_err(|e| e.to_string())?)),
            &mut exact(all, wn),
        );

        // renamed values of one string column
        let mut t = t;
        let s = r.below(nc);
        t.cols[s].1 = DataType::Utf8;
        for row in t.rows.iter_mut() {
            row[s] = value(r, &DataType::Utf8, true, true);
        }
        let map: Vec<(String, String)> = {
            let mut w: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut w);
            w.truncate(r.below(5));
            // onto other words of the column: a value must be renamed once
            w.iter().map(|a| (a.clone(), if r.bool() { r.pick(&WORDS).to_string() } else { format!("{a}!") })).collect()
        };
        let want = t
            .rows
            .iter()
            .map(|row| {
                let mut row = row.clone();
                if let V::Str(x) = &row[s] {
                    if let Some((_, to)) = map.iter().find(|(f, _)| f == x) {
                        row[s] = V::Str(to.clone());
                    }
                }
                cells(&row)
            })
            .collect();
        let cn = ns[s].clone();
        cuts(
            m,
            r,
            run,
            "renamed values",
            &t,
            &|i| Ok(Run::ext(RenameColumnRowsNode::try_new(i, Column::from_name(cn.clone()), map.clone()).map_err(|e| e.to_string())?)),
            &mut exact(want, ns.clone()),
        );
        m.observed(("columns", case), t.rows.len() > 1 && nc > 1);
    }
}

// ------------------------------------------------------------------ Q13
pub fn limits(m: &mut Mon, r: &mut Rng, run: &Run) {
    let n = m.n(800, 30000);
    for case in 0..n {
        if !m.within(50, 900) {
            break;
        }
        let skip = r.below(3);
        let groups = r.below(4);
        let extra = 1 + r.below(3);
        let limit = 1 + r.below(if case % 10 == 0 { 60 } else { 5 });
        let gt: Vec<DataType> = (0..groups).map(|_| r.pick(&[DataType::Int64, DataType::Utf8, dec()]).clone()).collect();
        let mut cols: Vec<(String, DataType)> = (0..skip).map(|i| (format!("s{i}"), DataType::Utf8)).collect();
        cols.extend(gt.iter().enumerate().map(|(i, t)| (format!("g{i}"), t.clone())));
        cols.extend((0..extra).map(|i| (format!("v{i}"), dec())));
        cols.push(("id".into(), DataType::Int64));
        let ns: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
        let tys: Vec<DataType> = cols.iter().map(|c| c.1.clone()).collect();
        let rows = if case % 10 == 0 { 200 } else { n_rows(r) };
        let mut t = random_table(r, &ns, &tys, rows, true);
        for (i, row) in t.rows.iter_mut().enumerate() {
            *row.last_mut().unwrap() = V::Int(i as i128);
        }
        let res = LimitGroupsNode::try_new(run.plain(&t, t.cut(r, 0)), skip, groups, limit)
            .map_err(|e| e.to_string())
            .and_then(|nd| run.run(Run::ext(nd)));
        let o = match res {
            Ok(o) => o,
            Err(e) => {
                m.violation(&format!("limit: fails: {}", short(&e)), format!("{:?}: {e}", t.cols), json!({}));
                continue;
            }
        };
        m.count("operator runs", 1);
        m.observed(("limit", case), groups > 0 && rows > limit);
        let idc = cols.len() - 1;
        let mut last = -1i128;
        let mut kept = BTreeSet::new();
        let mut bad = None;
        for row in &o.rows {
            let V::Int(id) = row[idc] else {
                bad = Some(format!("row {} was not there", cells(row)));
                break;
            };
            if id <= last || t.rows.get(id as usize).map(|x| cells(x)) != Some(cells(row)) {
                bad = Some(format!("row {} out of order, twice or changed", cells(row)));
                break;
            }
            last = id;
            kept.insert(id);
        }
        if let Some(b) = bad {
            m.violation("limit: rows are not whole original rows in order", b, json!({"rows": lines(&t), "got": o.lines()}));
            continue;
        }
        let occ = |rows: &[Vec<V>], upto: usize, g: usize, v: &V| rows.iter().take(upto).filter(|x| x[skip + g] == *v).count();
        for (i, row) in t.rows.iter().enumerate() {
            let over = (0..groups).any(|g| occ(&t.rows, i + 1, g, &row[skip + g]) > limit);
            if !kept.contains(&(i as i128)) {
                m.count("rows dropped", 1);
                if !over {
                    m.violation(
                        "limit: drops a row none of whose values is over the limit",
                        format!("limit {limit}, {groups} groups: row {i} {}", cells(row)),
                        json!({"rows": lines(&t), "got": o.lines()}),
                    );
                    break;
                }
            }
        }
        for g in 0..groups {
            for row in &o.rows {
                let c = occ(&o.rows, o.rows.len(), g, &row[skip + g]);
                if c > limit {
                    m.violation(
                        "limit: a value is kept more often than the limit",
                        format!("limit {limit}: {} {c} times", row[skip + g].s()),
                        json!({"rows": lines(&t), "got": o.lines()}),
                    );
                    break;
                }
            }
        }

        // average and order
        let groups = 1 + r.below(3);
        let nv = 1 + r.below(5);
        let mut cols: Vec<(String, DataType)> = (0..groups).map(|i| (format!("g{i}"), any_type(r))).collect();
        cols.extend((0..nv).map(|i| (format!("v{i}"), dec())));
        let ns: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
        let tys: Vec<DataType> = cols.iter().map(|c| c.1.clone()).collect();
        let rows = n_rows(r);
        let few = r.bool();
        let t = random_table(r, &ns, &tys, rows, few);
        let res = AggregateAndSortColumnsNode::try_new(run.plain(&t, t.cut(r, 0)), groups)
            .map_err(|e| e.to_string())
            .and_then(|nd| run.run(Run::ext(nd)));
        let o = match res {
            Ok(o) => o,
            Err(e) => {
                m.violation(&format!("order: fails: {}", short(&e)), format!("{:?}: {e}", t.cols), json!({}));
                continue;
            }
        };
        m.count("operator runs", 1);
        m.observed(("order", case), rows > 1);
        let avg = |vals: &[V]| vals.iter().map(|v| if let V::Dec(d) = v { *d } else { 0 }).sum::<i128>() / nv as i128;
        let mut want: Vec<String> = t
            .rows
            .iter()
            .map(|row| {
                let mut x = row.clone();
                x.insert(groups, V::Dec(avg(&row[groups..])));
                cells(&x)
            })
            .collect();
        want.sort();
        let mut got: Vec<String> = o.rows.iter().map(|r| cells(r)).collect();
        got.sort();
        let mut wn = ns.clone();
        wn.insert(groups, "Average".into());
        if o.names() != wn {
            m.violation("order: wrong columns", format!("{:?} want {wn:?}", o.names()), json!({}));
            continue;
        }
        if let Some(d) = diff(&got, &want) {
            m.violation("order: rows lost or changed, or a wrong average", d, json!({"rows": lines(&t), "got": o.lines()}));
            continue;
        }
        let avgs: Vec<i128> = o.rows.iter().map(|r| if let V::Dec(d) = r[groups] { d } else { i128::MIN }).collect();
        if avgs.windows(2).any(|w| w[0] < w[1]) {
            m.violation("order: not by descending average", format!("{avgs:?}"), json!({"rows": lines(&t)}));
        }
        m.count("rows ordered", rows as u64);
    }
}

// ------------------------------------------------------------------ Q14
pub fn dictionaries(m: &mut Mon, r: &mut Rng, run: &Run) {
    let dir = tempfile::Builder::new().prefix("vq").tempdir().unwrap();
    let db = Arc::new(metadata::rocksdb::new(dir.path().join("md")).unwrap());
    let dicts = Arc::new(Dictionaries::new(db));
    let ints = [DataType::Int8, DataType::Int16, DataType::Int32, DataType::Int64];
    // (project, table, column) -> code -> word
    let mut words: BTreeMap<(u64, String, String), BTreeMap<u64, String>> = BTreeMap::new();
    let n = m.n(500, 20000);
    for case in 0..n {
        if !m.within(50, 900) {
            break;
        }
        let nd = 1 + r.below(3);
        let nc = nd + r.below(3);
        let mut cols: Vec<(String, DataType)> = vec![];
        let proj = 1 + r.below(3) as u64;
        let tbl = r.pick(&["events", "group_0"]).to_string();
        let mut order: Vec<usize> = (0..nc).collect();
        r.shuffle(&mut order);
        for i in 0..nc {
            let t = if order[i] < nd { r.pick(&ints).clone() } else { any_type(r) };
            cols.push((format!("c{i}"), t));
        }
        let dcols: Vec<usize> = (0..nc).filter(|i| order[*i] < nd).collect();
        for i in &dcols {
            let k = (proj, tbl.clone(), format!("c{i}"));
            let d = words.entry(k).or_default();
            if d.len() < 100 {
                for _ in 0..1 + r.below(4) {
                    let w = if r.bool() { r.string() } else { r.pick(&WORDS).to_string() };
                    match dicts.get_key_or_create(proj, &tbl, &format!("c{i}"), &w) {
                        Ok(c) => {
                            if let Some(old) = d.insert(c, w.clone()) {
                                if old != w {
                                    m.violation("one code for two strings", format!("{c}: {old:?} and {w:?}"), json!({}));
                                }
                            }
                        }
                        Err(e) => m.violation("a string cannot be encoded", format!("{w:?}: {e}"), json!({})),
                    }
                }
            }
        }
        let rows = n_rows(r);
        let mut t = random_table(r, &cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), &cols.iter().map(|c| c.1.clone()).collect::<Vec<_>>(), rows, false);
        for row in t.rows.iter_mut() {
            for i in &dcols {
                let d = &words[&(proj, tbl.clone(), format!("c{i}"))];
                row[*i] = if r.chance(1, 6) { V::Null } else { V::Int(*r.pick(&d.keys().collect::<Vec<_>>()).to_owned() as i128) };
            }
        }
        let want: Vec<String> = t
            .rows
            .iter()
            .map(|row| {
                let mut row = row.clone();
                for i in &dcols {
                    if let V::Int(c) = row[*i] {
                        row[*i] = V::Str(words[&(proj, tbl.clone(), format!("c{i}"))][&(c as u64)].clone());
                    }
                }
                cells(&row)
            })
            .collect();
        let mut dc: Vec<(Column, Arc<SingleDictionaryProvider>)> = dcols
            .iter()
            .map(|i| {
                (
                    Column::from_name(format!("c{i}")),
                    Arc::new(SingleDictionaryProvider::new(proj, tbl.clone(), format!("c{i}"), dicts.clone())),
                )
            })
            .collect();
        r.shuffle(&mut dc);
        m.count("codes decoded", (rows * dcols.len()) as u64);
        m.observed(case, rows > 1);
        let wn = cols.iter().map(|c| c.0.clone()).collect();
        cuts(
            m,
            r,
            run,
            "decoding",
            &t,
            &|i| Ok(Run::ext(DictionaryDecodeNode::try_new(i, dc.clone()).map_err(|e| e.to_string())?)),
            &mut exact(want, wn),
        );
    }
}

// ------------------------------------------------------------------ Q12
pub fn partitioning(m: &mut Mon, r: &mut Rng, run: &Run) {
    use datafusion::physical_expr::expressions::Column as PCol;
    use datafusion::physical_plan::memory::MemoryExec;
    use datafusion::physical_plan::ExecutionPlan;
    use datafusion::physical_plan::PhysicalExpr;
    use datafusion::prelude::SessionContext;
    use query::physical_plan::PartitionExec;
    let n = m.n(500, 20000);
    // (types of the key, key) -> tag, over all runs
    let mut tags: BTreeMap<(String, String), String> = BTreeMap::new();
    let mut back: BTreeMap<(String, String), String> = BTreeMap::new();
    for case in 0..n {
        if !m.within(50, 900) {
            break;
        }
        let nk = 1 + r.below(2);
        let nc = nk + r.below(4);
        let mut cols: Vec<(String, DataType)> = (0..nc).map(|i| (format!("c{i}"), any_type(r))).collect();
        for c in cols.iter_mut().take(nk) {
            if r.bool() {
                c.1 = DataType::Int64;
            }
        }
        let rows = n_rows(r);
        let few = r.bool();
        let t = random_table(r, &cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), &cols.iter().map(|c| c.1.clone()).collect::<Vec<_>>(), rows, few);
        let mut ks: Vec<usize> = (0..nk).collect();
        r.shuffle(&mut ks);
        let kt = ks.iter().map(|k| cols[*k].1.to_string()).collect::<Vec<_>>().join(",");
        for mode in 0..3 {
            let b = t.cut(r, mode);
            let nb = b.len();
            let res = guarded(|| {
                run.block(async {
                    let input = MemoryExec::try_new(&[b], t.schema(), None).map_err(|e| e.to_string())?;
                    let e: Vec<Arc<dyn PhysicalExpr>> = ks.iter().map(|k| Arc::new(PCol::new(&cols[*k].0, *k)) as Arc<dyn PhysicalExpr>).collect();
                    let ex: Arc<dyn ExecutionPlan> = Arc::new(PartitionExec::try_new(Arc::new(input), e, "tag".into()).map_err(|e| e.to_string())?);
                    let s = ex.schema();
                    let bs: Vec<RecordBatch> = datafusion::physical_plan::collect(ex, SessionContext::new().task_ctx()).await.map_err(|e| e.to_string())?;
                    Ok::<Out, String>(Out::from(s, &bs))
                })
            });
            let o = match res.unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                Ok(o) => o,
                Err(e) => {
                    m.violation(&format!("partitioning fails: {}", short(&e)), format!("{:?}: {e}", t.cols), json!({}));
                    break;
                }
            };
            m.count("operator runs", 1);
            let got: Vec<String> = o.rows.iter().map(|r| cells(&r[1..])).collect();
            let want: Vec<String> = t.rows.iter().map(|r| cells(r)).collect();
            if let Some(d) = diff(&got, &want) {
                m.violation("partitioning: rows changed, lost or moved", format!("{nb} batches: {d}"), json!({"rows": lines(&t), "got": o.lines()}));
                break;
            }
            for row in &o.rows {
                let key = cells(&ks.iter().map(|k| row[1 + *k].clone()).collect::<Vec<_>>());
                let tag = row[0].s();
                let old = tags.entry((kt.clone(), key.clone())).or_insert(tag.clone());
                if *old != tag {
                    let msg = format!("key ({key}) of type {kt}: {old} and {tag}, {nb} batches");
                    m.violation("one key got two tags", msg, json!({"rows": lines(&t)}));
                }
                // the hashes of a null key ignore the column, so only keys without nulls differ
                // and combined hashes of several columns may collide
                if ks.len() == 1 && key != "null" {
                    let old = back.entry((kt.clone(), tag.clone())).or_insert(key.clone());
                    if *old != key {
                        let msg = format!("tag {tag} for keys ({old}) and ({key}) of type {kt}");
                        m.violation("two keys got one tag", msg, json!({"rows": lines(&t)}));
                    }
                }
            }
        }
        m.observed(case, rows > 1);
    }
    m.count("different keys", tags.len() as u64);
}

// ------------------------------------------------------------------ Q09
#[derive(Clone, Debug)]
pub enum C {
    And(Box<C>, Box<C>),
    Or(Box<C>, Box<C>),
    Count { ev: Option<i64>, t: T, op: usize, right: i64 },
    Agg { ev: Option<i64>, t: T, f: usize, dec: bool, op: usize, right: i128 },
}
#[derive(Clone, Debug)]
pub enum T {
    None,
    Between(i64, i64),
    From(i64),
    Last(i64, i64),
}
pub fn cmp(op: usize, a: i128, b: i128) -> bool {
    match op {
        0 => a == b,
        1 => a != b,
        2 => a < b,
        3 => a <= b,
        4 => a > b,
        _ => a >= b,
    }
}
const OPS: [SegOp; 6] = [SegOp::Eq, SegOp::NotEq, SegOp::Lt, SegOp::LtEq, SegOp::Gt, SegOp::GtEq];
impl T {
    fn inside(&self, ts: i64) -> bool {
        match self {
            T::None => true,
            T::Between(a, b) => ts >= *a && ts <= *b,
            T::From(a) => ts >= *a,
            T::Last(n, now) => ts >= now - n,
        }
    }
    fn range(&self) -> TimeRange {
        match self {
            T::None => TimeRange::None,
            T::Between(a, b) => TimeRange::Between(*a, *b),
            T::From(a) => TimeRange::From(*a),
            T::Last(n, now) => TimeRange::Last(*n, *now),
        }
    }
}
pub fn random_cond(r: &mut Rng, depth: usize) -> C {
    if depth > 0 && r.chance(1, 2) {
        let (a, b) = (Box::new(random_cond(r, depth - 1)), Box::new(random_cond(r, depth - 1)));
        return if r.bool() { C::And(a, b) } else { C::Or(a, b) };
    }
    let ev = if r.chance(1, 4) { None } else { Some(r.range(1, 4)) };
    let t = match r.below(4) {
        0 => T::None,
        1 => {
            let a = r.range(0, 40);
            T::Between(a, a + r.range(0, 30))
        }
        2 => T::From(r.range(0, 40)),
        _ => T::Last(r.range(0, 30), r.range(20, 60)),
    };
    let op = r.below(6);
    if r.bool() {
        C::Count { ev, t, op, right: r.range(0, 5) }
    } else {
        let dec = r.bool();
        let f = r.below(if dec { 4 } else { 5 });
        let right = r.range(-4, 8) as i128;
        C::Agg { ev, t, f, dec, op, right: if dec { right * MUL / 2 } else { right } }
    }
}
fn ev_expr(ev: &Option<i64>) -> Expr {
    match ev {
        Some(e) => col("event").eq(lit(*e)),
        None => lit(true),
    }
}
const SEG_FNS: [SegAgg; 5] = [SegAgg::Sum, SegAgg::Min, SegAgg::Max, SegAgg::Avg, SegAgg::Count];
pub fn seg_expr(c: &C) -> SegmentExpr {
    let ts_col = Column::from_name("created_at");
    let partition_col = Column::from_name("group_0");
    match c {
        C::And(a, b) => SegmentExpr::And(Box::new(seg_expr(a)), Box::new(seg_expr(b))),
        C::Or(a, b) => SegmentExpr::Or(Box::new(seg_expr(a)), Box::new(seg_expr(b))),
        C::Count { ev, t, op, right } => SegmentExpr::Count {
            filter: ev_expr(ev),
            ts_col,
            partition_col,
            time_range: t.range(),
            op: OPS[*op].clone(),
            right: *right,
            time_window: None,
        },
        C::Agg { ev, t, f, dec: d, op, right } => SegmentExpr::Aggregate {
            filter: ev_expr(ev),
            predicate: Column::from_name(if *d { "d" } else { "v" }),
            ts_col,
            partition_col,
            time_range: t.range(),
            agg: SEG_FNS[*f].clone(),
            op: OPS[*op].clone(),
            right: if *d {
                ScalarValue::Decimal128(Some(*right), common::DECIMAL_PRECISION, common::DECIMAL_SCALE)
            } else {
                ScalarValue::Int64(Some(*right as i64))
            },
            time_window: None,
        },
    }
}
/// rows: project_id, group_0, created_at, event, v, d
pub fn satisfies(c: &C, rows: &[&Vec<V>]) -> bool {
    let pick = |ev: &Option<i64>, t: &T| -> Vec<usize> {
        (0..rows.len())
            .filter(|i| {
                let V::Ts(ts) = rows[*i][2] else { return false };
                t.inside(ts) && ev.map_or(true, |e| rows[*i][3] == V::Int(e as i128))
            })
            .collect()
    };
    match c {
        C::And(a, b) => satisfies(a, rows) && satisfies(b, rows),
        C::Or(a, b) => satisfies(a, rows) || satisfies(b, rows),
        C::Count { ev, t, op, right } => cmp(*op, pick(ev, t).len() as i128, *right as i128),
        C::Agg { ev, t, f, dec, op, right } => {
            let vals: Vec<i128> = pick(ev, t)
                .iter()
                .filter_map(|i| match &rows[*i][if *dec { 5 } else { 4 }] {
                    V::Int(x) | V::Dec(x) => Some(*x),
                    _ => None,
                })
                .collect();
            if *f == 4 {
                return cmp(*op, vals.len() as i128, *right);
            }
            if vals.is_empty() {
                return false;
            }
            match f {
                0 => cmp(*op, vals.iter().sum(), *right),
                1 => cmp(*op, *vals.iter().min().unwrap(), *right),
                2 => cmp(*op, *vals.iter().max().unwrap(), *right),
                _ => cmp(*op, vals.iter().sum(), *right * vals.len() as i128),
            }
        }
    }
}
pub fn seg_table(r: &mut Rng) -> Table {
    let cols = vec![
        ("project_id".to_string(), DataType::Int64),
        ("group_0".to_string(), DataType::Int64),
        ("created_at".to_string(), ts()),
        ("event".to_string(), DataType::Int64),
        ("v".to_string(), DataType::Int64),
        ("d".to_string(), dec()),
        ("g0".to_string(), DataType::Utf8),
        ("f".to_string(), DataType::Boolean),
    ];
    let users = r.below(14);
    let mut us: Vec<i64> = (0..users).map(|_| r.range(0, 25)).collect();
    us.sort();
    us.dedup();
    let mut rows = vec![];
    for u in us {
        let n = 1 + r.below(8);
        let mut tss: Vec<i64> = (0..n).map(|_| r.range(0, 60)).collect();
        tss.sort();
        for t in tss {
            rows.push(vec![
                V::Int(1),
                V::Int(u as i128),
                V::Ts(t),
                V::Int(r.range(1, 4) as i128),
                if r.chance(1, 6) { V::Null } else { V::Int(r.range(-3, 6) as i128) },
                if r.chance(1, 6) { V::Null } else { V::Dec(r.range(-6, 12) as i128 * MUL / 2) },
                V::Str(r.pick(&["x", "y", "z"]).to_string()),
                V::Bool(true),
            ]);
        }
    }
    Table { cols, rows }
}
fn members(c: &C, t: &Table) -> BTreeSet<i128> {
    let mut by: BTreeMap<i128, Vec<&Vec<V>>> = BTreeMap::new();
    for row in &t.rows {
        if let V::Int(u) = row[1] {
            by.entry(u).or_default().push(row);
        }
    }
    by.into_iter().filter(|(_, rows)| satisfies(c, rows)).map(|x| x.0).collect()
}
pub fn segments(m: &mut Mon, r: &mut Rng, run: &Run) {
    let n = m.n(1200, 60000);
    for case in 0..n {
        if !m.within(60, 1000) {
            break;
        }
        let t = seg_table(r);
        let depth = r.below(3);
        let c = random_cond(r, depth);
        let want = members(&c, &t);
        let c2 = c.clone();
        let w = want.clone();
        let shape = match &c {
            C::And(..) => "conjunction",
            C::Or(..) => "alternative",
            C::Count { .. } => "count",
            C::Agg { .. } => "aggregate",
        };
        m.count(&format!("{shape} conditions"), 1);
        m.count("users judged", t.rows.iter().map(|r| r[1].s()).collect::<BTreeSet<_>>().len() as u64);
        m.count("members", want.len() as u64);
        cuts(
            m,
            r,
            run,
            &format!("segment by {shape}"),
            &t,
            &|i| Ok(Run::ext(SegmentNode::try_new(i, seg_expr(&c2), Column::from_name("group_0")).map_err(|e| e.to_string())?)),
            &mut |_, o| {
                let mut got: Vec<String> = o.rows.iter().filter(|r| r[0] != V::Null).map(|r| r[0].s()).collect();
                got.sort();
                let mut want: Vec<String> = w.iter().map(|u| u.to_string()).collect();
                want.sort();
                diff(&got, &want).map(|d| format!("{c2:?}: members {d}"))
            },
        );
        m.observed(case, !want.is_empty() && t.rows.len() > 2);

        // an aggregate over segments
        if case % 3 == 0 {
            let ns = 1 + r.below(3);
            let conds: Vec<C> = (0..ns)
                .map(|_| {
                    let d = r.below(2);
                    random_cond(r, d)
                })
                .collect();
            let a = match r.below(4) {
                0 => A::Users,
                1 => A::Count,
                2 => A::Agg(r.pick(&agg::FNS).clone()),
                _ => A::AggPer(r.pick(&agg::FNS).clone(), r.pick(&agg::FNS).clone()),
            };
            let g = Some(vec![(col("g0"), SortField { data_type: DataType::Utf8 })]);
            let mode = r.below(3);
            let parts = *r.pick(&[1usize, 2, 4]);
            let b = t.cut(r, mode);
            let segs = conds
                .iter()
                .map(|c| {
                    let b = t.cut(r, mode);
                    Run::ext(SegmentNode::try_new(run.plain(&t, b), seg_expr(c), Column::from_name("group_0")).unwrap())
                })
                .collect();
            let res = agg::plan(run.plain(&t, b), Some(segs), &[(agg::expr(&a, &g), "0_0".to_string())]).and_then(|p| run.run_with(p, parts));
            let o = match res {
                Ok(o) => o,
                Err(e) => {
                    m.violation(&format!("aggregate over segments fails: {}", short(&e)), format!("{ns} segments, {a:?}, {parts} partitions: {e}"), json!({}));
                    continue;
                }
            };
            m.count("aggregates over segments", 1);
            let vc = o.col(&agg::col_of(0, &a)).unwrap();
            let (gc, sc) = (o.col("g0").unwrap(), o.col("segment").unwrap());
            for (s, c) in conds.iter().enumerate() {
                let mem = members(c, &t);
                let sub = Table {
                    cols: ["project_id", "group_0", "g0", "v", "f"].iter().map(|n| t.cols[t.col(n)].clone()).collect(),
                    rows: t
                        .rows
                        .iter()
                        .filter(|row| matches!(row[1], V::Int(u) if mem.contains(&u)))
                        .map(|row| ["project_id", "group_0", "g0", "v", "f"].iter().map(|n| row[t.col(n)].clone()).collect())
                        .collect(),
                };
                let w = agg::want(&sub, 1, &a, false);
                let got: Vec<(String, V)> =
                    o.rows.iter().filter(|row| row[sc] == V::Int(s as i128) && row[vc] != V::Null).map(|row| (row[gc].s(), row[vc].clone())).collect();
                let ok = got.len() == w.len() && got.iter().all(|(k, v)| w.get(k).is_some_and(|x| agg::same(v, x)));
                if !ok {
                    m.violation(
                        "aggregate over segments: wrong result",
                        format!("segment {s} {c:?} of {ns}, {a:?}, {parts} partitions: {got:?} want {w:?}"),
                        json!({"rows": lines(&t), "got": o.lines(), "segments": format!("{conds:?}"), "mode": mode}),
                    );
                }
            }
        }
    }
}
