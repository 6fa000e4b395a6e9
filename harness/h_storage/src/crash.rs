//! S02: the process dies at a system call that changes the store's directory; the store is then
//! opened again and compared with what had been acknowledged. A child process runs the workload
//! with `write`, `open`, `rename`, ... of the C library intercepted; at a chosen call the child
//! performs none, half or all of it and exits without running anything else.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::ffi::c_char;
use std::ffi::c_int;
use std::ffi::c_void;
use std::ffi::CStr;
use std::path::Path;
use std::path::PathBuf;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicI64;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

use common::types::DType;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use storage::NamedValue;
use storage::Value;

use crate::dbx::*;
use crate::gate;
use crate::hist::scratch;

// ---------------------------------------------------------------- interception

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicI64 = AtomicI64::new(0);
static AT: AtomicI64 = AtomicI64::new(-1);
static MODE: AtomicUsize = AtomicUsize::new(0);
static FDS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64]; // bit set of descriptors < 4096
static PREFIX: Mutex<Vec<u8>> = Mutex::new(Vec::new());

fn die() -> ! {
    unsafe { libc::_exit(77) }
}
fn tracked(fd: c_int) -> bool {
    fd >= 0 && fd < 4096 && FDS[fd as usize / 64].load(Ordering::Relaxed) >> (fd % 64) & 1 == 1
}
fn track(fd: c_int, on: bool) {
    if fd >= 0 && fd < 4096 {
        let bit = 1u64 << (fd % 64);
        if on {
            FDS[fd as usize / 64].fetch_or(bit, Ordering::Relaxed);
        } else {
            FDS[fd as usize / 64].fetch_and(!bit, Ordering::Relaxed);
        }
    }
}
fn inside(p: *const c_char) -> bool {
    if !ARMED.load(Ordering::Relaxed) || p.is_null() {
        return false;
    }
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    b.starts_with(&PREFIX.lock().unwrap())
}
/// Lets one in `n` of the store's system calls below `dir` wait a little; 0: none.
pub fn delays(dir: &Path, n: u64) {
    ARMED.store(false, Ordering::SeqCst);
    *PREFIX.lock().unwrap() = dir.to_str().unwrap().as_bytes().to_vec();
    DELAY.store(n, Ordering::SeqCst);
    ARMED.store(n > 0, Ordering::SeqCst);
}
static DELAY: AtomicU64 = AtomicU64::new(0);
static DELAY_RNG: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);

/// True when this call is the one to die at.
fn step() -> bool {
    let d = DELAY.load(Ordering::Relaxed);
    if d > 0 {
        let x = DELAY_RNG.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
        let x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let x = x ^ (x >> 32);
        if x % d == 0 {
            std::thread::sleep(std::time::Duration::from_micros((x >> 20) % 400));
        }
        return false;
    }
    let n = COUNT.fetch_add(1, Ordering::SeqCst) + 1;
    let at = AT.load(Ordering::Relaxed);
    if at > 0 && n > at {
        // another thread is dying
        loop {
            std::thread::park();
        }
    }
    n == at
}
fn around(f: impl FnOnce() -> i64) -> i64 {
    if step() {
        if MODE.load(Ordering::Relaxed) > 0 {
            f();
        }
        die();
    }
    f()
}

macro_rules! sys {
    ($n:expr $(, $a:expr)*) => { unsafe { libc::syscall($n $(, $a)*) as i64 } };
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if ARMED.load(Ordering::Relaxed) && tracked(fd) && n > 0 {
        if step() {
            match MODE.load(Ordering::Relaxed) {
                0 => {}
                1 => {
                    sys!(libc::SYS_write, fd, buf, n / 2);
                }
                _ => {
                    sys!(libc::SYS_write, fd, buf, n);
                }
            }
            die();
        }
    }
    sys!(libc::SYS_write, fd, buf, n) as isize
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !inside(path) {
        let fd = sys!(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int;
        track(fd, false);
        return fd;
    }
    let changes = flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    let open = || sys!(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode);
    let fd = if changes { around(open) } else { open() } as c_int;
    track(fd, true);
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = || sys!(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0);
    (if inside(a) || inside(b) { around(f) } else { f() }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let f = || sys!(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0);
    (if inside(a) { around(f) } else { f() }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: libc::mode_t) -> c_int {
    let f = || sys!(libc::SYS_mkdirat, libc::AT_FDCWD, a, mode);
    (if inside(a) { around(f) } else { f() }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = || sys!(libc::SYS_ftruncate, fd, n);
    (if ARMED.load(Ordering::Relaxed) && tracked(fd) { around(f) } else { f() }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut i64,
    b: c_int,
    bo: *mut i64,
    n: usize,
    flags: u32,
) -> isize {
    let f = |n: usize| sys!(libc::SYS_copy_file_range, a, ao, b, bo, n, flags);
    if ARMED.load(Ordering::Relaxed) && tracked(b) && step() {
        match MODE.load(Ordering::Relaxed) {
            0 => {}
            1 => {
                f(50);
            }
            _ => {
                f(n);
            }
        }
        die();
    }
    f(n) as isize
}

// ---------------------------------------------------------------- the workload

const SPREAD: i64 = 6;

pub fn row_keys(t: usize, i: i64) -> Vec<i64> {
    let h = (mon::hash_of(&(t, i)) % SPREAD as u64) as i64;
    vec![h, i]
}
pub fn col_type(t: usize, n: usize) -> DType {
    if n < 2 {
        return DType::Int64;
    }
    TYPES[(mon::hash_of(&(t, n, "col")) % TYPES.len() as u64) as usize].clone()
}
pub fn col_name(n: usize) -> String {
    if n < 2 {
        format!("k{n}")
    } else {
        format!("c{n}")
    }
}
/// Row `i` of table `t` when the table has `n` columns.
pub fn row(t: usize, i: i64, n: usize) -> Vec<Value> {
    let mut out: Vec<Value> = row_keys(t, i).into_iter().map(|k| Value::Int64(Some(k))).collect();
    for c in 2..n {
        let mut r = Rng::new(mon::hash_of(&(t, i, c, "val")));
        let v = match col_type(t, c) {
            DType::String => {
                let len = if r.chance(1, 40) { 6000 } else { r.below(12) };
                Value::String(Some((0..len).map(|k| (b'a' + (k % 26) as u8) as char).collect()))
            }
            ty => gen_value(&mut r, &ty),
        };
        out.push(v);
    }
    out
}
fn options(seed: u64, t: usize) -> storage::table::Options {
    let mut r = Rng::new(mon::hash_of(&(seed, t, "opt")));
    let mut o = gen_options(&mut r, 2, t == 1);
    o.l0_max_parts = r.below(3);
    o.max_log_length_bytes = *r.pick(&[100, 300, 700, 1 << 20]);
    o
}

struct Ack(c_int);
impl Ack {
    fn open(p: &Path) -> Ack {
        let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        let fd = sys!(
            libc::SYS_openat,
            libc::AT_FDCWD,
            c.as_ptr(),
            libc::O_CREAT | libc::O_APPEND | libc::O_WRONLY,
            0o644
        );
        Ack(fd as c_int)
    }
    fn line(&self, s: &str) {
        let s = format!("{s}\n");
        sys!(libc::SYS_write, self.0, s.as_ptr(), s.len());
    }
    fn op<T>(&self, what: &str, f: impl FnOnce() -> Result<T, String>) -> T {
        self.line(&format!("B {what}"));
        match f() {
            Ok(v) => {
                self.line("E");
                v
            }
            Err(e) => {
                self.line(&format!("F {}", e.replace('\n', " ")));
                unsafe { libc::_exit(78) }
            }
        }
    }
}

pub fn child(args: &[String]) -> ! {
    let dir = PathBuf::from(&args[0]);
    let seed: u64 = args[1].parse().unwrap();
    let stage: u64 = args[2].parse().unwrap();
    let at: i64 = args[3].parse().unwrap();
    let mode: usize = args[4].parse().unwrap();
    let ops: usize = args[5].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    gate::install();
    let ack = Ack::open(&dir.with_extension("ack"));
    *PREFIX.lock().unwrap() = dir.to_str().unwrap().as_bytes().to_vec();
    AT.store(at, Ordering::SeqCst);
    MODE.store(mode, Ordering::SeqCst);
    ARMED.store(true, Ordering::SeqCst);
    let mut r = Rng::new(mon::hash_of(&(seed, stage)));
    let db = ack.op("open", || Db::open(&dir));
    let names = ["t0", "t1"];
    let mut next = stage as i64 * 100_000;
    let mut cols = [0usize; 2];
    for t in 0..2 {
        let have = guarded(|| db.db().schema(names[t]));
        match have {
            Ok(Ok(s)) => cols[t] = s.fields.len(),
            _ => ack.op(&format!("tbl {t}"), || {
                guarded(|| db.db().create_table(names[t].into(), options(seed, t)).map_err(|e| format!("{e:?}")))?
            }),
        }
        while cols[t] < 4 {
            let n = cols[t];
            ack.op(&format!("col {t} {n}"), || {
                guarded(|| {
                    db.db().add_field(names[t], &col_name(n), col_type(t, n), n >= 2).map_err(|e| format!("{e:?}"))
                })?
            });
            cols[t] += 1;
        }
    }
    for _ in 0..ops {
        let t = r.below(2);
        match r.below(20) {
            0..=12 => {
                let i = next;
                next += 1;
                let n = cols[t];
                ack.op(&format!("ins {t} {i} {n}"), || {
                    let named = row(t, i, n)
                        .into_iter()
                        .enumerate()
                        .filter(|(_, v)| !matches!(v, Value::Null))
                        .map(|(c, v)| NamedValue::new(col_name(c), v))
                        .collect();
                    guarded(|| db.db().insert(names[t], named).map_err(|e| format!("{e:?}")))?
                });
            }
            13 | 14 => ack.op("flush", || db.flush(names[t])),
            15 | 16 => ack.op("compact", || db.compact()),
            17 => ack.op("gc", || db.gc()),
            _ => {
                let n = cols[t];
                if n < 8 {
                    ack.op(&format!("col {t} {n}"), || {
                        guarded(|| {
                            db.db().add_field(names[t], &col_name(n), col_type(t, n), true).map_err(|e| format!("{e:?}"))
                        })?
                    });
                    cols[t] += 1;
                }
            }
        }
    }
    ack.line(&format!("T {}", COUNT.load(Ordering::SeqCst)));
    unsafe { libc::_exit(0) }
}

// ---------------------------------------------------------------- the oracle

#[derive(Default, Clone)]
struct Known {
    table: bool,
    table_maybe: bool,
    cols: usize,
    cols_maybe: usize,
    rows: BTreeMap<i64, usize>,
    maybe: BTreeMap<i64, usize>,
}

#[derive(Default)]
struct Acked {
    t: [Known; 2],
    failed: Option<String>,
    total: i64,
    in_flight: Vec<String>,
    ops: usize,
}

fn parse_acks(s: &str) -> Acked {
    let mut a = Acked::default();
    let mut pending: Option<Vec<String>> = None;
    let mut settle = |a: &mut Acked, p: Vec<String>, done: bool| {
        let n = |k: usize| p[k].parse::<i64>().unwrap();
        if !done {
            a.in_flight.push(p.join(" "));
        } else {
            a.ops += 1;
        }
        match p[0].as_str() {
            "tbl" => {
                let k = &mut a.t[n(1) as usize];
                k.table_maybe = true;
                k.table |= done;
            }
            "col" => {
                let k = &mut a.t[n(1) as usize];
                k.cols_maybe = k.cols_maybe.max(n(2) as usize + 1);
                if done {
                    k.cols = n(2) as usize + 1;
                }
            }
            "ins" => {
                let k = &mut a.t[n(1) as usize];
                // a table that takes rows exists with these columns
                k.table = true;
                k.cols = k.cols.max(n(3) as usize);
                k.cols_maybe = k.cols_maybe.max(k.cols);
                if done {
                    k.rows.insert(n(2), n(3) as usize);
                } else {
                    k.maybe.insert(n(2), n(3) as usize);
                }
            }
            _ => {}
        }
    };
    for l in s.lines() {
        let (k, rest) = l.split_at(1);
        match k {
            "B" => {
                if let Some(p) = pending.take() {
                    settle(&mut a, p, false);
                }
                pending = Some(rest.trim().split(' ').map(|s| s.to_string()).collect());
            }
            "E" => {
                if let Some(p) = pending.take() {
                    settle(&mut a, p, true);
                }
            }
            "F" => {
                let p = pending.take().unwrap_or_default();
                a.failed = Some(format!("{}: {}", p.join(" "), rest.trim()));
            }
            _ => a.total = rest.trim().parse().unwrap_or(0),
        }
    }
    if let Some(p) = pending.take() {
        settle(&mut a, p, false);
    }
    a
}

fn compare(db: &Db, t: usize, k: &Known, extra: &BTreeMap<i64, usize>, when: &str) -> Result<(), (String, String)> {
    let name = ["t0", "t1"][t];
    let e = |key: &str, m: String| Err((format!("{key}-{when}"), m));
    let schema = match guarded(|| db.db().schema(name)) {
        Ok(Ok(s)) => s,
        Ok(Err(_)) if !k.table => return Ok(()),
        Ok(Err(x)) => return e("table-lost", format!("{name}: {x:?}")),
        Err(x) => return e("table-lost", format!("{name}: {x}")),
    };
    if !k.table_maybe {
        return e("table-invented", name.into());
    }
    let n = schema.fields.len();
    if n < k.cols || n > k.cols_maybe {
        return e("columns", format!("{name} has {n} columns, {} were acknowledged, {} asked for", k.cols, k.cols_maybe));
    }
    for (c, f) in schema.fields.iter().enumerate() {
        if f.name != col_name(c) {
            return e("columns", format!("column {c} of {name} is named {}", f.name));
        }
    }
    if n < 2 {
        return Ok(());
    }
    let got = match db.scan(name, &(0..n).collect::<Vec<_>>()) {
        Ok(g) => g,
        Err(x) => return e("scan-failed", x),
    };
    let all: BTreeMap<i64, usize> =
        k.rows.iter().chain(k.maybe.iter()).chain(extra.iter()).map(|(a, b)| (*a, *b)).collect();
    let mut seen = BTreeSet::new();
    for g in &got {
        let i = match &g[1] {
            Value::Int64(Some(i)) => *i,
            v => return e("row-extra", format!("{name}: version {v:?}")),
        };
        let w = match all.get(&i) {
            Some(w) => *w,
            None => return e("row-extra", format!("{name}: a row that was never written: {g:?}")),
        };
        let mut want: Vec<Value> = row(t, i, w).into_iter().map(norm).collect();
        want.resize(n, Value::Null);
        if &want != g {
            return e("row-changed", format!("{name}: row {i} written as {want:?}, read as {g:?}"));
        }
        if !seen.insert(i) {
            return e("row-twice", format!("{name}: row {i} is returned twice"));
        }
    }
    let must: Vec<i64> = k.rows.keys().chain(extra.keys()).copied().collect();
    let lost: Vec<i64> = if t == 0 {
        must.iter().filter(|i| !seen.contains(i)).copied().collect()
    } else {
        // rows of one key replace each other: the newest must be there
        let top = |it: &mut dyn Iterator<Item = i64>| {
            let mut m: BTreeMap<i64, i64> = BTreeMap::new();
            for i in it {
                let x = m.entry(row_keys(t, i)[0]).or_insert(i);
                *x = (*x).max(i);
            }
            m
        };
        let have = top(&mut seen.iter().copied());
        top(&mut must.iter().copied()).into_iter().filter(|(p, i)| have.get(p).map_or(true, |h| h < i)).map(|(_, i)| i).collect()
    };
    if !lost.is_empty() {
        return e("row-lost", format!("{name}: acknowledged rows {lost:?} are gone ({} of {} returned)", got.len(), must.len()));
    }
    Ok(())
}

fn verify(dir: &Path, a: &Acked) -> Result<usize, (String, String)> {
    let mut db = Db::open(dir).map_err(|e| ("open-failed".to_string(), e))?;
    let none = [BTreeMap::new(), BTreeMap::new()];
    for t in 0..2 {
        compare(&db, t, &a.t[t], &none[t], "after-crash")?;
    }
    // and the store goes on working
    let mut extra = none.clone();
    let mut cols = [0; 2];
    for t in 0..2 {
        if let Ok(Ok(s)) = guarded(|| db.db().schema(["t0", "t1"][t])) {
            cols[t] = s.fields.len();
        }
    }
    for round in 0..2i64 {
        for t in 0..2 {
            if cols[t] < 4 {
                continue;
            }
            for j in 0..3 {
                let i = 1_000_000 + round * 10 + j;
                let named = row(t, i, cols[t])
                    .into_iter()
                    .enumerate()
                    .filter(|(_, v)| !matches!(v, Value::Null))
                    .map(|(c, v)| NamedValue::new(col_name(c), v))
                    .collect();
                guarded(|| db.db().insert(["t0", "t1"][t], named).map_err(|e| format!("{e:?}")))
                    .and_then(|r| r)
                    .map_err(|e| ("insert-failed-after-crash".to_string(), e))?;
                extra[t].insert(i, cols[t]);
            }
            if round == 0 {
                db.flush(["t0", "t1"][t]).map_err(|e| ("flush-failed-after-crash".to_string(), e))?;
            }
        }
        if round == 0 {
            db.compact().map_err(|e| ("compact-failed-after-crash".to_string(), e))?;
            db.gc().map_err(|e| ("gc-failed-after-crash".to_string(), e))?;
        }
        for t in 0..2 {
            compare(&db, t, &a.t[t], &extra[t], "later")?;
        }
    }
    db.close();
    let mut db = Db::open(dir).map_err(|e| ("open-failed-later".to_string(), e))?;
    for t in 0..2 {
        compare(&db, t, &a.t[t], &extra[t], "reopened")?;
    }
    db.close();
    Ok(a.t[0].rows.len() + a.t[1].rows.len())
}

fn spawn(dir: &Path, seed: u64, stage: u64, at: i64, mode: usize, ops: usize) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .arg("__crash")
        .arg(dir)
        .args([seed.to_string(), stage.to_string(), at.to_string(), mode.to_string(), ops.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("child");
    st.code().unwrap_or(-1)
}

/// For looking at a failure by hand.
pub fn dump(dir: &str, tbl: &str) -> ! {
    gate::install();
    let db = Db::open(Path::new(dir)).expect("open");
    let n = db.db().schema(tbl).unwrap().fields.len();
    println!("{:#?}", levels(&db.metadata(tbl).unwrap()));
    println!("{:?}", db.db().table_options(tbl));
    for r in db.scan(tbl, &(0..n).collect::<Vec<_>>()).unwrap() {
        println!("{r:?}");
    }
    std::process::exit(0)
}

struct Outcome {
    seed: u64,
    plan: Vec<(i64, usize)>,
    codes: Vec<i32>,
    rows: usize,
    ops: usize,
    in_flight: Vec<String>,
    bad: Option<(String, String)>,
}

fn case(base: &Path, id: usize, seed: u64, plan: &[(i64, usize)], ops: usize) -> Outcome {
    let dir = base.join(format!("c{id}"));
    let ackp = dir.with_extension("ack");
    std::fs::create_dir_all(&dir).unwrap();
    let mut codes = vec![];
    for (stage, (at, mode)) in plan.iter().enumerate() {
        codes.push(spawn(&dir, seed, stage as u64, *at, *mode, ops));
    }
    let a = parse_acks(&std::fs::read_to_string(&ackp).unwrap_or_default());
    let mut rows = 0;
    let bad = if let Some(f) = &a.failed {
        let key = if f.starts_with("open") { "open-failed" } else { "operation-failed-after-crash" };
        Some((key.to_string(), f.clone()))
    } else if codes.iter().any(|c| *c != 77 && *c != 0) {
        Some(("child-died".into(), format!("exit codes {codes:?}")))
    } else {
        match verify(&dir, &a) {
            Ok(n) => {
                rows = n;
                None
            }
            Err(e) => Some(e),
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_file(&ackp);
    Outcome { seed, plan: plan.to_vec(), codes, rows, ops: a.ops, in_flight: a.in_flight, bad }
}

pub fn s02(m: &mut Mon) {
    m.rule("every acknowledged row, column and table is there after the process died at any system call that changes the store's directory; a request in flight is there completely or not at all; and the store keeps working");
    m.assume("the process dies, the operating system does not: what was given to write(2) is in the file");
    gate::install();
    let tmp = scratch();
    let base = tmp.path().to_path_buf();
    let mut r = m.rng.fork();
    let mut id = 0;
    let workers = 8;
    let mut per_op: BTreeMap<String, u64> = BTreeMap::new();
    let ops = 30;
    let mut round = 0u64;
    while m.within(40, 500) && !m.violated() {
        round += 1;
        let seed = r.next();
        // how many calls there are
        let dir = base.join("dry");
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::remove_file(dir.with_extension("ack"));
        std::fs::create_dir_all(&dir).unwrap();
        spawn(&dir, seed, 0, -1, 0, ops);
        let a = parse_acks(&std::fs::read_to_string(dir.with_extension("ack")).unwrap_or_default());
        if let Some(f) = a.failed {
            m.violation("operation-failed", f, json!({"seed": seed}));
            continue;
        }
        let total = a.total.max(1);
        m.count("system calls to die at", total as u64);
        let mut plans: Vec<Vec<(i64, usize)>> = vec![vec![(total + 100, 0)]];
        for p in 1..=total {
            for mode in 0..3 {
                // all points of the first runs, a part of the later ones
                if round <= 1 || r.chance(1, 4) {
                    plans.push(vec![(p, mode)]);
                }
            }
            if r.chance(1, 3) {
                // and again while recovering or soon after it
                let second = if r.bool() { r.range(1, 12) } else { r.range(1, total) };
                plans.push(vec![(p, r.below(3)), (second, r.below(3))]);
            }
            if r.chance(1, 12) {
                let (a, b, c) = (r.range(1, total), r.range(1, total), r.below(3));
                plans.push(vec![(p, c), (a, c), (b, c)]);
            }
        }
        r.shuffle(&mut plans);
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<Outcome>> = Mutex::new(vec![]);
        let stop = AtomicBool::new(false);
        let start = id;
        std::thread::scope(|s| {
            for _ in 0..workers {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= plans.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let o = case(&base, start + k, seed, &plans[k], ops);
                    if o.bad.is_some() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    results.lock().unwrap().push(o);
                });
            }
        });
        id += plans.len();
        for o in results.into_inner().unwrap() {
            m.observed((o.seed, &o.plan), o.codes.contains(&77) && o.ops > 5);
            m.count("crashes", o.codes.iter().filter(|c| **c == 77).count() as u64);
            m.count("acknowledged rows compared", o.rows as u64);
            for f in &o.in_flight {
                let k = f.split(' ').next().unwrap_or("").to_string();
                *per_op.entry(k).or_insert(0) += 1;
            }
            if let Some((k, msg)) = o.bad {
                m.violation(&k, msg, json!({"seed": o.seed, "deaths (call, mode)": format!("{:?}", o.plan), "in flight": o.in_flight}));
            } else {
                m.sample(|| json!({"deaths": format!("{:?}", o.plan), "in flight": o.in_flight, "rows": o.rows}));
            }
        }
    }
    for (k, n) in per_op {
        m.count(&format!("died during {k}"), n);
    }
    m.require("crashes", 200);
}
