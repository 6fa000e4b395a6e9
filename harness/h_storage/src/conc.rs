//! S08: writers, readers, column additions, flushes, backups and the store's own threads at the
//! same time, with delays injected at system calls; an online monitor keeps for every row when its
//! insertion began and when it was acknowledged and judges every answer against that.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::path::Path;
use std::path::PathBuf;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Duration;
use std::time::Instant;

use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use storage::NamedValue;
use storage::Value;

use crate::crash;
use crate::crash::col_name;
use crate::crash::col_type;
use crate::crash::row;
use crate::dbx::*;
use crate::gate;
use crate::hist::scratch;

const WRITERS: usize = 3;
const TABLES: [&str; 2] = ["t0", "t1"];

/// What each writer has begun and what it has been told is done: rows are numbered in order.
struct Log {
    begun: [[AtomicUsize; WRITERS]; 2],
    acked: [[AtomicUsize; WRITERS]; 2],
    /// columns each row was written with
    width: [Mutex<BTreeMap<i64, usize>>; 2],
    cols: [AtomicUsize; 2],
    stop: AtomicBool,
    progress: [AtomicU64; 16],
    bad: Mutex<Vec<(String, String)>>,
}

fn id(writer: usize, n: usize) -> i64 {
    (writer as i64 + 1) * 1_000_000 + n as i64
}
fn named(t: usize, i: i64, n: usize) -> Vec<NamedValue> {
    row(t, i, n)
        .into_iter()
        .enumerate()
        .filter(|(_, v)| !matches!(v, Value::Null))
        .map(|(c, v)| NamedValue::new(col_name(c), v))
        .collect()
}

impl Log {
    fn bad(&self, k: &str, m: String) {
        self.bad.lock().unwrap().push((k.into(), m));
        self.stop.store(true, Ordering::SeqCst);
    }
    fn snap(&self, which: &[[AtomicUsize; WRITERS]; 2], t: usize) -> Vec<usize> {
        which[t].iter().map(|a| a.load(Ordering::SeqCst)).collect()
    }
    /// Judges rows read between `acked` (before) and `begun` (after).
    fn judge(&self, t: usize, n: usize, got: &[Row], acked: &[usize], begun: &[usize], what: &str) -> bool {
        let width = self.width[t].lock().unwrap().clone();
        let mut seen = BTreeSet::new();
        for g in got {
            let i = match &g[1] {
                Value::Int64(Some(i)) => *i,
                v => {
                    self.bad(&format!("{what}-row-invented"), format!("version {v:?}"));
                    return false;
                }
            };
            let w = ((i / 1_000_000) - 1).max(0) as usize;
            let k = (i % 1_000_000) as usize;
            if i < 1_000_000 || w >= WRITERS || k >= begun[w] {
                self.bad(&format!("{what}-row-invented"), format!("{}: {g:?}", TABLES[t]));
                return false;
            }
            let wd = *width.get(&i).unwrap_or(&2);
            let mut want: Vec<Value> = row(t, i, wd.min(n)).into_iter().map(norm).collect();
            want.resize(n, Value::Null);
            if &want != g {
                self.bad(&format!("{what}-row-torn"), format!("{}: row {i} written as {want:?}, read as {g:?}", TABLES[t]));
                return false;
            }
            if !seen.insert(i) {
                self.bad(&format!("{what}-row-twice"), format!("{}: row {i}", TABLES[t]));
                return false;
            }
        }
        let mut lost = vec![];
        let mut top: BTreeMap<i64, i64> = BTreeMap::new();
        for i in &seen {
            let e = top.entry(crash::row_keys(t, *i)[0]).or_insert(*i);
            *e = (*e).max(*i);
        }
        for w in 0..WRITERS {
            for k in 0..acked[w] {
                let i = id(w, k);
                if t == 0 {
                    if !seen.contains(&i) {
                        lost.push(i);
                    }
                } else if top.get(&crash::row_keys(t, i)[0]).map_or(true, |h| *h < i) {
                    lost.push(i);
                }
            }
        }
        if !lost.is_empty() {
            self.bad(
                &format!("{what}-row-lost"),
                format!("{}: {} rows acknowledged before the read began are not returned, e.g. {:?}", TABLES[t], lost.len(), &lost[..lost.len().min(4)]),
            );
            return false;
        }
        true
    }
}

#[derive(Default)]
struct Seen {
    rows: u64,
    scans: u64,
    overlapped: u64,
    gets: u64,
    cols: u64,
    flushes: u64,
    backups: u64,
    sig: Vec<u64>,
}

type Backups = Mutex<Vec<(PathBuf, [Vec<usize>; 2], [Vec<usize>; 2])>>;

struct Ctx {
    db: Db,
    seen: Mutex<Seen>,
    backups: Backups,
    backup_dir: PathBuf,
}
type Task = Box<dyn Fn(&mut Rng) -> bool + Send>;

fn round(base: &Path, r: &mut Rng, len: Duration, log: &'static Log) -> Result<Seen, String> {
    let dir = base.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let db = Db::open(&dir)?;
    for t in 0..2 {
        let mut o = gen_options(r, 2, t == 1);
        o.l0_max_parts = r.below(4);
        o.max_log_length_bytes = *r.pick(&[200, 500, 2_000, 1 << 20]);
        o.merge_row_group_values_limit = *r.pick(&[5, 20, 1000]);
        o.merge_array_size = *r.pick(&[7, 50, 10000]);
        o.merge_array_page_size = *r.pick(&[7, 50, 10000]);
        o.merge_chunk_size = *r.pick(&[7, 50, 10000]);
        guarded(|| db.db().create_table(TABLES[t].into(), o).map_err(|e| format!("{e:?}")))??;
        for c in 0..3 {
            guarded(|| db.db().add_field(TABLES[t], &col_name(c), col_type(t, c), c >= 2).map_err(|e| format!("{e:?}")))??;
        }
        log.cols[t].store(3, Ordering::SeqCst);
    }
    gate::free_run(&dir, true);
    crash::delays(&dir, *r.pick(&[0, 1, 4, 16]));
    let backup_dir = base.join("backup");
    std::fs::create_dir_all(&backup_dir).unwrap();
    let raw = Box::into_raw(Box::new(Ctx { db, seen: Default::default(), backups: Default::default(), backup_dir }));
    // the threads are joined before the box is taken back; after a deadlock it never is
    let ctx: &'static Ctx = unsafe { &*raw };
    let (dbr, seen, backups) = (&ctx.db, &ctx.seen, &ctx.backups);
    let mut tasks: Vec<Task> = vec![];
    {
        let mut go = |_name: &'static str, f: Task| tasks.push(f);
        for w in 0..WRITERS {
            go(
                "writer",
                Box::new(move |r| {
                    let t = r.below(2);
                    let k = log.begun[t][w].load(Ordering::SeqCst);
                    if k >= 400 {
                        std::thread::sleep(Duration::from_millis(1));
                        return true;
                    }
                    let i = id(w, k);
                    let n = log.cols[t].load(Ordering::SeqCst);
                    log.width[t].lock().unwrap().insert(i, n);
                    log.begun[t][w].store(k + 1, Ordering::SeqCst);
                    // replace and insert write the same row; replace also checks a version cache
                    let res = guarded(|| {
                        if w == 0 {
                            dbr.db().replace(TABLES[t], named(t, i, n))
                        } else {
                            dbr.db().insert(TABLES[t], named(t, i, n))
                        }
                    });
                    match res {
                        Ok(Ok(())) => {
                            log.acked[t][w].store(k + 1, Ordering::SeqCst);
                            true
                        }
                        Ok(Err(e)) => {
                            log.bad("insert-failed", format!("{e:?}"));
                            false
                        }
                        Err(e) => {
                            log.bad("insert-panicked", e);
                            false
                        }
                    }
                }),
            );
        }
        for _ in 0..2 {
            go(
                "reader",
                Box::new(move |r| {
                    let t = r.below(2);
                    let n = log.cols[t].load(Ordering::SeqCst);
                    let acked = log.snap(&log.acked, t);
                    let res = dbr.scan(TABLES[t], &(0..n).collect::<Vec<_>>());
                    let begun = log.snap(&log.begun, t);
                    match res {
                        Ok(got) => {
                            let ok = log.judge(t, n, &got, &acked, &begun, "scan");
                            let mut s = seen.lock().unwrap();
                            s.scans += 1;
                            s.rows += got.len() as u64;
                            s.overlapped += (acked != begun) as u64;
                            s.sig.push(mon::hash_of(&(t, got.len(), n)));
                            ok
                        }
                        Err(e) => {
                            log.bad("scan-failed", e);
                            false
                        }
                    }
                }),
            );
        }
        {
            go(
                "getter",
                Box::new(move |r| {
                    let t = r.below(2);
                    let w = r.below(WRITERS);
                    let k = log.acked[t][w].load(Ordering::SeqCst);
                    if k == 0 {
                        return true;
                    }
                    // for the replacing table an older row may already have been replaced
                    let i = if t == 0 { id(w, r.below(k)) } else { id(WRITERS - 1, k - 1) };
                    if t == 1 && log.acked[1][WRITERS - 1].load(Ordering::SeqCst) < k {
                        return true;
                    }
                    let key = crash::row_keys(t, i);
                    let newest = |b: &[usize]| {
                        (0..b[WRITERS - 1]).map(|k| id(WRITERS - 1, k)).filter(|j| crash::row_keys(t, *j)[0] == key[0]).max()
                    };
                    let res = guarded(|| dbr.db().get(TABLES[t], kv(&key)));
                    let after = log.snap(&log.begun, t);
                    seen.lock().unwrap().gets += 1;
                    match res {
                        Ok(Ok(Some(v))) => {
                            let width = *log.width[t].lock().unwrap().get(&i).unwrap_or(&2);
                            let mut want: Vec<Value> = row(t, i, width).into_iter().map(norm).collect();
                            want.resize(v.len().max(width), Value::Null);
                            let got: Vec<Value> = v.into_iter().map(norm).collect();
                            if got != want {
                                log.bad("get-row-torn", format!("row {i} written as {want:?}, read as {got:?}"));
                                return false;
                            }
                            true
                        }
                        Ok(Ok(None)) => {
                            if t == 1 && newest(&after) != Some(i) {
                                return true;
                            }
                            log.bad("get-row-lost", format!("{}: row {i} was acknowledged before", TABLES[t]));
                            false
                        }
                        Ok(Err(e)) => {
                            log.bad("get-failed", format!("{e:?}"));
                            false
                        }
                        Err(e) => {
                            log.bad("get-panicked", e);
                            false
                        }
                    }
                }),
            );
        }
        {
            go(
                "columns",
                Box::new(move |r| {
                    std::thread::sleep(Duration::from_micros(r.below(60_000) as u64));
                    let t = r.below(2);
                    let n = log.cols[t].load(Ordering::SeqCst);
                    if n >= 9 {
                        return true;
                    }
                    let res = guarded(|| dbr.db().add_field(TABLES[t], &col_name(n), col_type(t, n), true));
                    match res {
                        Ok(Ok(())) => {
                            log.cols[t].store(n + 1, Ordering::SeqCst);
                            seen.lock().unwrap().cols += 1;
                            true
                        }
                        e => {
                            log.bad("add-column-failed", format!("{e:?}"));
                            false
                        }
                    }
                }),
            );
        }
        {
            go(
                "flusher",
                Box::new(move |r| {
                    std::thread::sleep(Duration::from_micros(r.below(20_000) as u64));
                    match dbr.flush(TABLES[r.below(2)]) {
                        Ok(()) => {
                            seen.lock().unwrap().flushes += 1;
                            true
                        }
                        Err(e) => {
                            log.bad("flush-failed", e);
                            false
                        }
                    }
                }),
            );
        }
        {
            go(
                "backup",
                Box::new(move |r| {
                    std::thread::sleep(Duration::from_micros(r.below(150_000) as u64));
                    let k = backups.lock().unwrap().len();
                    if k >= 3 {
                        return true;
                    }
                    let p = ctx.backup_dir.join(format!("b{k}"));
                    let acked = [log.snap(&log.acked, 0), log.snap(&log.acked, 1)];
                    match guarded(|| dbr.db().full_backup_local(&p, |_| {})) {
                        Ok(Ok(())) => {
                            let begun = [log.snap(&log.begun, 0), log.snap(&log.begun, 1)];
                            backups.lock().unwrap().push((p, acked, begun));
                            seen.lock().unwrap().backups += 1;
                            true
                        }
                        e => {
                            log.bad("backup-failed", format!("{e:?}"));
                            false
                        }
                    }
                }),
            );
        }
    }
    let mut threads = vec![];
    for (my, f) in tasks.into_iter().enumerate() {
        let seed = r.next();
        threads.push(std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            while !log.stop.load(Ordering::SeqCst) {
                log.progress[my].fetch_add(1, Ordering::SeqCst);
                if !f(&mut r) {
                    break;
                }
            }
        }));
    }
    // the watchdog: every thread goes on, or there is a deadlock
    let t0 = Instant::now();
    let n = threads.len();
    let mut last = vec![(0u64, Instant::now()); n];
    while threads.iter().any(|t| !t.is_finished()) {
        std::thread::sleep(Duration::from_millis(10));
        if t0.elapsed() > len {
            log.stop.store(true, Ordering::SeqCst);
        }
        if let Some(x) = gate::take_panics().into_iter().find(|x| x.contains("src/storage")) {
            if log.bad.lock().unwrap().is_empty() {
                log.bad("background-thread-panicked", x);
            }
        }
        let mut stuck = vec![];
        for i in 0..n {
            let p = log.progress[i].load(Ordering::SeqCst);
            if p != last[i].0 || threads[i].is_finished() {
                last[i] = (p, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(30) {
                stuck.push(i);
            }
        }
        if !stuck.is_empty() {
            log.bad("deadlock", format!("threads {stuck:?} of {n} made no progress for 30 s"));
            return Ok(Seen::default());
        }
    }
    for t in threads {
        let _ = t.join();
    }
    let ctx = unsafe { Box::from_raw(raw) };
    let Ctx { mut db, seen, backups, .. } = *ctx;
    crash::delays(&dir, 0);
    gate::free_run(&dir, false);
    let check = |db: &Db, what: &str| {
        for t in 0..2 {
            let (acked, begun) = (log.snap(&log.acked, t), log.snap(&log.begun, t));
            let n = log.cols[t].load(Ordering::SeqCst);
            match db.scan(TABLES[t], &(0..n).collect::<Vec<_>>()) {
                Ok(got) => {
                    log.judge(t, n, &got, &acked, &begun, what);
                }
                Err(e) => log.bad(&format!("{what}-scan-failed"), e),
            }
        }
    };
    if log.bad.lock().unwrap().is_empty() {
        check(&db, "settled");
    }
    db.close();
    if log.bad.lock().unwrap().is_empty() {
        let mut db = Db::open(&dir).map_err(|e| format!("opening again: {e}"))?;
        check(&db, "reopened");
        db.close();
    }
    if log.bad.lock().unwrap().is_empty() {
        for (p, acked, begun) in backups.into_inner().unwrap() {
            let rd = base.join("restored");
            let _ = std::fs::remove_dir_all(&rd);
            std::fs::create_dir_all(&rd).unwrap();
            let mut db = Db::open(&rd)?;
            match guarded(|| db.db().full_restore_local(&p)) {
                Ok(Ok(())) => {
                    for t in 0..2 {
                        let n = match guarded(|| db.db().schema(TABLES[t])) {
                            Ok(Ok(s)) => s.fields.len(),
                            e => {
                                log.bad("restore-table-lost", format!("{e:?}"));
                                break;
                            }
                        };
                        match db.scan(TABLES[t], &(0..n).collect::<Vec<_>>()) {
                            Ok(got) => {
                                log.judge(t, n, &got, &acked[t], &begun[t], "restored");
                            }
                            Err(e) => log.bad("restored-scan-failed", e),
                        }
                    }
                }
                e => log.bad("restore-failed", format!("{e:?}")),
            }
            db.close();
        }
    }
    Ok(seen.into_inner().unwrap())
}

pub fn s08(m: &mut Mon) {
    m.rule("under concurrent writers, readers, column additions, flushes, compaction, collection and backups every read returns all rows acknowledged before it began, no row that was not begun before it ended, none twice, none torn; after closing and opening again, and from a backup taken meanwhile, the same; no deadlock");
    gate::install();
    let mut r = m.rng.fork();
    let mut k = 0;
    while m.within(45, 500) && !m.violated() {
        k += 1;
        let tmp = scratch();
        let log: &'static Log = Box::leak(Box::new(Log {
            begun: Default::default(),
            acked: Default::default(),
            width: Default::default(),
            cols: Default::default(),
            stop: AtomicBool::new(false),
            progress: Default::default(),
            bad: Mutex::new(vec![]),
        }));
        gate::take_panics();
        let seed = r.next();
        let len = Duration::from_millis(*r.pick(&[150, 400, 900]));
        match round(tmp.path(), &mut Rng::new(seed), len, log) {
            Ok(s) => {
                m.count("scans", s.scans);
                m.count("scans during writes", s.overlapped);
                m.count("rows judged", s.rows);
                m.count("lookups", s.gets);
                m.count("columns added", s.cols);
                m.count("flushes", s.flushes);
                m.count("backups", s.backups);
                for x in s.sig {
                    m.observed(x, true);
                }
                m.sample(|| json!({"round": k, "scans": s.scans, "rows": s.rows, "backups": s.backups}));
            }
            Err(e) => m.violation("open-failed", e, json!({"round seed": seed})),
        }
        for (key, msg) in std::mem::take(&mut *log.bad.lock().unwrap()) {
            m.violation(&key, msg, json!({"round seed": seed, "round": k}));
        }
    }
    m.require("scans during writes", 20);
    m.require("rows judged", 1000);
}
