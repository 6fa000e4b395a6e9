//! Control of the store's background threads (compactor, file collector, metrics) through the
//! pacing hook: rounds run exactly when the workload asks for one, and a panic of a background
//! thread is noticed.
use std::collections::HashMap;
use std::path::Path;
use std::path::PathBuf;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::Ordering;
use std::sync::Condvar;
use std::sync::Mutex;
use std::thread::ThreadId;
use std::time::Duration;
use std::time::Instant;

use storage::verif::Gate;

#[derive(Default)]
struct Slot {
    requested: u64,
    done: u64,
    running: Option<ThreadId>,
    closed: bool,
    free: bool,
    exits: usize,
}

static STATE: Mutex<Option<HashMap<(&'static str, PathBuf), Slot>>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static PANICS: Mutex<Vec<(ThreadId, String)>> = Mutex::new(Vec::new());
static FREE_METRICS: AtomicBool = AtomicBool::new(false);

fn gate(what: &'static str, path: &Path) -> Gate {
    if what == "metrics" {
        if FREE_METRICS.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(3));
            return Gate::Run;
        }
        return Gate::Exit;
    }
    let me = std::thread::current().id();
    let key = (what, path.to_path_buf());
    let mut g = STATE.lock().unwrap();
    {
        let s = g.get_or_insert_with(HashMap::new).entry(key.clone()).or_default();
        if s.running == Some(me) {
            s.running = None;
            s.done += 1;
            CV.notify_all();
        }
    }
    let t0 = Instant::now();
    loop {
        let s = g.as_mut().unwrap().entry(key.clone()).or_default();
        if s.free {
            drop(g);
            std::thread::sleep(Duration::from_micros(500));
            let mut g = STATE.lock().unwrap();
            let s = g.as_mut().unwrap().entry(key).or_default();
            if s.closed && what == "gc" {
                s.exits += 1;
                CV.notify_all();
                return Gate::Exit;
            }
            return Gate::Run;
        }
        if s.closed && what == "gc" {
            s.exits += 1;
            CV.notify_all();
            return Gate::Exit;
        }
        if s.requested > s.done && s.running.is_none() {
            s.running = Some(me);
            return Gate::Run;
        }
        let wait = if what == "gc" { 200 } else { 2 };
        if what != "gc" && t0.elapsed() > Duration::from_millis(2) {
            return Gate::Skip;
        }
        let (g2, _) = CV.wait_timeout(g, Duration::from_millis(wait)).unwrap();
        g = g2;
    }
}

pub fn install() {
    storage::verif::set_gate(gate);
    let main = std::thread::current().id();
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let me = std::thread::current().id();
        if me != main {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANICS.lock().unwrap().push((me, format!("{loc}: {msg}")));
            CV.notify_all();
        }
        if std::env::var("VERIF_SHOW_PANICS").is_ok() || me == main {
            prev(info);
        }
    }));
}

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap()).into_iter().map(|(_, m)| m).collect()
}

/// Runs one round of a background loop and waits for its end.
pub fn round(what: &'static str, path: &Path) -> Result<(), String> {
    let key = (what, path.to_path_buf());
    let mut g = STATE.lock().unwrap();
    let want = {
        let s = g.get_or_insert_with(HashMap::new).entry(key.clone()).or_default();
        s.requested += 1;
        s.requested
    };
    CV.notify_all();
    let t0 = Instant::now();
    loop {
        let s = g.as_mut().unwrap().entry(key.clone()).or_default();
        if s.done >= want {
            return Ok(());
        }
        let runner = s.running;
        if let Some(r) = runner {
            if let Some((_, m)) = PANICS.lock().unwrap().iter().find(|(t, _)| *t == r) {
                return Err(format!("the {what} thread panicked: {m}"));
            }
        }
        if t0.elapsed() > Duration::from_secs(30) {
            return Err(format!("the {what} thread did not finish a round within 30 s"));
        }
        let (g2, _) = CV.wait_timeout(g, Duration::from_millis(20)).unwrap();
        g = g2;
    }
}

/// Lets the loops of this store run on their own from now on.
pub fn free_run(path: &Path, on: bool) {
    let mut g = STATE.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    for what in ["compactor", "gc"] {
        m.entry((what, path.to_path_buf())).or_default().free = on;
    }
    FREE_METRICS.store(on, Ordering::Relaxed);
    CV.notify_all();
}

/// A store at this path is about to be opened: forget what is known of an earlier one.
pub fn opening(path: &Path) {
    let mut g = STATE.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    for what in ["compactor", "gc"] {
        m.insert((what, path.to_path_buf()), Slot::default());
    }
}

/// The store at this path is closed: waits until its `n` collector threads have left.
pub fn closed(path: &Path, n: usize) {
    let mut g = STATE.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    for what in ["compactor", "gc"] {
        m.entry((what, path.to_path_buf())).or_default().closed = true;
    }
    CV.notify_all();
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(5) {
        if g.as_mut().unwrap().entry(("gc", path.to_path_buf())).or_default().exits >= n {
            return;
        }
        g = CV.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
    }
}
