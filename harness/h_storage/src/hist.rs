//! Random histories of the store against a list-of-rows model: S01 (scan), S03 (replacing),
//! S04 (compaction), S05 (columns), S06 (backup).
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::path::Path;

use common::types::DType;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use storage::Value;

use crate::dbx::*;
use crate::gate;

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub index_cols: usize,
    pub replacing: bool,
    pub ops: usize,
    pub flush: u32,
    pub compact: u32,
    pub gc: u32,
    pub scan: u32,
    pub proj: u32,
    pub add: u32,
    pub reopen: u32,
    pub get: u32,
    pub backup: u32,
    pub held: u32,
    pub tables: usize,
}

pub struct H {
    pub db: Db,
    pub models: Vec<Model>,
    pub trace: Vec<String>,
    pub cfg: Cfg,
    pub spread: i64,
    pub version: i64,
}

pub fn scratch() -> tempfile::TempDir {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    tempfile::Builder::new().prefix("vf-storage-").tempdir_in(base).expect("scratch directory")
}

impl H {
    pub fn new(dir: &Path, r: &mut Rng, cfg: Cfg) -> Result<H, String> {
        let db = Db::open(dir)?;
        let mut models = vec![];
        let mut trace = vec![];
        for i in 0..cfg.tables.max(1) {
            let o = gen_options(r, cfg.index_cols, cfg.replacing);
            let extra = r.below(6);
            let m = create(&db, r, &format!("t{i}"), o, extra)?;
            trace.push(format!("table t{i} {:?} columns {:?}", m.opts, m.fields));
            models.push(m);
        }
        let spread = *r.pick(&[2, 5, 20, 1000, 1_000_000]);
        Ok(H { db, models, trace, cfg, spread, version: 0 })
    }

    pub fn insert(&mut self, r: &mut Rng, t: usize) -> Result<(), (String, String)> {
        let m = &mut self.models[t];
        let mut keys = gen_keys(r, m.keys(), self.spread);
        if self.cfg.replacing {
            // the last key column is the version: it grows with every write
            if !r.chance(1, 12) {
                self.version += 1;
            }
            let n = keys.len();
            keys[n - 1] = self.version;
        }
        let (named, row) = gen_row(r, m, &keys);
        self.trace.push(format!("insert {} {named:?}", m.tbl));
        insert(&self.db, m, named, row).map_err(|e| ("insert-failed".into(), e))
    }

    /// What the oracle of a scan accepts.
    pub fn check_scan(&self, t: usize, proj: &[usize], got: &[Row]) -> Result<(), (String, String)> {
        let m = &self.models[t];
        let keys = m.keys();
        let has_keys = (0..keys).all(|k| proj.contains(&k));
        let kind = if has_keys { "" } else { "-without-keys" };
        if self.cfg.replacing {
            return check_replacing(m, proj, got);
        }
        let exp = project(&m.full(), proj);
        if let Some(d) = diff(&exp, got) {
            return Err((format!("scan-rows{kind}"), d));
        }
        if has_keys && !sorted_by(got, keys) {
            return Err((format!("scan-order{kind}"), format!("rows are not in key order: {:?}", &got[..got.len().min(12)])));
        }
        Ok(())
    }

    pub fn scan_full(&mut self, t: usize) -> Result<(), (String, String)> {
        let m = &self.models[t];
        let proj: Vec<usize> = (0..m.fields.len()).collect();
        self.trace.push(format!("scan {}", m.tbl));
        let got = self.db.scan(&m.tbl, &proj).map_err(|e| ("scan-failed".to_string(), e))?;
        self.check_scan(t, &proj, &got)
    }

    pub fn scan_proj(&mut self, r: &mut Rng, t: usize, with_keys: bool) -> Result<Vec<usize>, (String, String)> {
        let m = &self.models[t];
        let mut proj: Vec<usize> = (0..m.fields.len())
            .filter(|i| (with_keys && *i < m.keys()) || r.bool())
            .collect();
        if proj.is_empty() {
            proj.push(r.below(m.fields.len()));
        }
        r.shuffle(&mut proj);
        self.trace.push(format!("scan {} {proj:?}", m.tbl));
        let has_keys = (0..m.keys()).all(|k| proj.contains(&k));
        let key = if has_keys { "scan-failed".to_string() } else { "scan-without-keys-failed".to_string() };
        let got = self.db.scan(&m.tbl, &proj).map_err(|e| (key, e))?;
        self.check_scan(t, &proj, &got)?;
        Ok(proj)
    }

    pub fn get(&mut self, r: &mut Rng, t: usize) -> Result<bool, (String, String)> {
        let m = &self.models[t];
        let n = m.keys();
        let present = !m.rows.is_empty() && r.chance(3, 4);
        let key: Vec<i64> = if present {
            r.pick(&m.rows)[..n].iter().map(key_of).collect()
        } else {
            gen_keys(r, n, self.spread + 3)
        };
        self.trace.push(format!("get {} {key:?}", m.tbl));
        let got = guarded(|| self.db.db().get(&m.tbl, kv(&key)).map_err(|e| format!("{e:?}")))
            .and_then(|x| x)
            .map_err(|e| ("get-failed".to_string(), e))?;
        let full = m.full();
        let cand: Vec<&Row> = full.iter().filter(|row| row[..n].iter().map(key_of).collect::<Vec<_>>() == key).collect();
        let got = got.map(|v| v.into_iter().map(norm).collect::<Vec<_>>());
        match got {
            None if cand.is_empty() => Ok(false),
            None => {
                // an older version may have been replaced by a newer one of the same record
                if self.cfg.replacing {
                    let pk = &key[..n - 1];
                    let newest = full
                        .iter()
                        .filter(|row| row[..n - 1].iter().map(key_of).collect::<Vec<_>>() == pk)
                        .map(|row| key_of(&row[n - 1]))
                        .max();
                    if newest != Some(key[n - 1]) {
                        return Ok(false);
                    }
                }
                Err(("get-missing".into(), format!("lookup of {key:?} found nothing; it was inserted")))
            }
            Some(row) => {
                let ok = if self.cfg.replacing {
                    // several rows with one full key: the last of them, or (across files) any
                    cand.iter().any(|c| **c == row)
                } else {
                    cand.iter().any(|c| **c == row)
                };
                if !ok {
                    return Err(("get-wrong".into(), format!("lookup of {key:?} returned {row:?}; inserted rows with this key: {cand:?}")));
                }
                Ok(true)
            }
        }
    }

    pub fn check_levels(&mut self, t: usize) -> Result<(u64, u64), (String, String)> {
        let m = &self.models[t];
        let md = self.db.metadata(&m.tbl).map_err(|e| ("metadata-unreadable".to_string(), e))?;
        let lv = levels(&md);
        let mut files = 0;
        let mut deep = 0;
        for (li, parts) in lv.iter().enumerate() {
            let mut ranges = vec![];
            for p in parts {
                files += 1;
                deep += (li > 0) as u64;
                let path = self.db.dir.join(format!("tables/{}/levels/{li}/{}.parquet", m.tbl, p.id));
                let rows = read_file(&path).map_err(|e| ("file-unreadable".to_string(), format!("{}: {e}", path.display())))?;
                if rows.len() as u64 != p.values {
                    return Err(("file-count".into(), format!("{}: {} rows, recorded as {}", path.display(), rows.len(), p.values)));
                }
                if !sorted_by(&rows, m.keys()) {
                    return Err(("file-order".into(), format!("{} is not sorted by key", path.display())));
                }
                let first: Vec<i64> = rows[0][..m.keys()].iter().map(key_of).collect();
                let last: Vec<i64> = rows[rows.len() - 1][..m.keys()].iter().map(key_of).collect();
                // the recorded range may be wider (it is per column), never narrower
                if first < p.min || last > p.max || first[0] != p.min[0] || last[0] != p.max[0] {
                    return Err(("file-range".into(), format!(
                        "{} holds keys {first:?}..{last:?} but is recorded as {:?}..{:?}", path.display(), p.min, p.max)));
                }
                ranges.push((first, last, p.id));
                let sz = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
                if sz != p.size {
                    return Err(("file-size".into(), format!("{} has {sz} bytes but is recorded with {}", path.display(), p.size)));
                }
            }
            ranges.sort();
            if li > 0 {
                for w in ranges.windows(2) {
                    if w[0].1 > w[1].0 {
                        return Err(("levels-overlap".into(), format!(
                            "level {li} of {}: the keys of files {} [{:?}..{:?}] and {} [{:?}..{:?}] overlap",
                            m.tbl, w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)));
                    }
                }
            }
        }
        Ok((files, deep))
    }

    /// One random operation; Ok(name of what was done).
    pub fn step(&mut self, r: &mut Rng) -> Result<&'static str, (String, String)> {
        let c = self.cfg.clone();
        let t = r.below(self.models.len());
        let total = 100 + c.flush + c.compact + c.gc + c.scan + c.proj + c.add + c.reopen + c.get + c.backup + c.held;
        let mut x = r.below(total as usize) as u32;
        if x < 100 {
            self.insert(r, t)?;
            return Ok("insert");
        }
        x -= 100;
        for (w, name) in [
            (c.flush, "flush"),
            (c.compact, "compact"),
            (c.gc, "gc"),
            (c.scan, "scan"),
            (c.proj, "proj"),
            (c.add, "add"),
            (c.reopen, "reopen"),
            (c.get, "get"),
            (c.backup, "backup"),
            (c.held, "held"),
        ] {
            if x >= w {
                x -= w;
                continue;
            }
            match name {
                "flush" => {
                    self.trace.push(format!("flush {}", self.models[t].tbl));
                    self.db.flush(&self.models[t].tbl).map_err(|e| ("flush-failed".to_string(), e))?;
                }
                "compact" => {
                    self.trace.push("compact".into());
                    self.db.compact().map_err(|e| ("compaction-failed".to_string(), e))?;
                    for t in 0..self.models.len() {
                        self.check_levels(t)?;
                    }
                }
                "gc" => {
                    self.trace.push("gc".into());
                    self.db.gc().map_err(|e| ("collection-failed".to_string(), e))?;
                    // nothing is being read: the files left are exactly the live ones
                    for m in &self.models {
                        let md = self.db.metadata(&m.tbl).map_err(|e| ("metadata-unreadable".to_string(), e))?;
                        for (li, parts) in levels(&md).iter().enumerate() {
                            let live: BTreeSet<String> = parts.iter().map(|p| format!("{}.parquet", p.id)).collect();
                            let disk: BTreeSet<String> = std::fs::read_dir(self.db.dir.join(format!("tables/{}/levels/{li}", m.tbl)))
                                .map(|d| d.flatten().map(|f| f.file_name().to_string_lossy().into_owned()).collect())
                                .unwrap_or_default();
                            if live != disk {
                                return Err(("files-left".into(), format!("level {li} of {}: files on disk {disk:?}, in use {live:?}", m.tbl)));
                            }
                        }
                    }
                }
                "scan" => self.scan_full(t)?,
                "proj" => {
                    self.scan_proj(r, t, true)?;
                }
                "add" => {
                    let m = &mut self.models[t];
                    if r.chance(1, 4) {
                        let f = r.pick(&m.fields).clone();
                        self.trace.push(format!("add again {} {}", m.tbl, f.name));
                        let res = guarded(|| self.db.db().add_field(&m.tbl, &f.name, r.pick(&TYPES).clone(), true).is_ok())
                            .map_err(|e| ("add-column-failed".to_string(), e))?;
                        if res {
                            return Err(("column-added-twice".into(), format!("column {} was added a second time", f.name)));
                        }
                        let s = self.db.db().schema(&m.tbl).map_err(|e| ("schema-failed".to_string(), format!("{e:?}")))?;
                        if s.fields.len() != m.fields.len() {
                            return Err(("refused-column-changed-schema".into(), format!("{} columns, expected {}", s.fields.len(), m.fields.len())));
                        }
                    } else if m.fields.len() < 14 {
                        let ty = r.pick(&TYPES).clone();
                        let name = format!("c{}", m.fields.len());
                        self.trace.push(format!("add {} {name} {ty:?}", m.tbl));
                        add_field(&self.db, m, &name, ty, true).map_err(|e| ("add-column-failed".to_string(), e))?;
                    }
                }
                "reopen" => {
                    self.trace.push("reopen".into());
                    let dir = self.db.dir.clone();
                    self.db.close();
                    self.db = Db::open(&dir).map_err(|e| ("reopen-failed".to_string(), e))?;
                    self.check_schema()?;
                }
                "get" => {
                    return Ok(if self.get(r, t)? { "get-hit" } else { "get-miss" });
                }
                "held" => return self.held(r, t),
                _ => self.backup(r)?,
            }
            return Ok(name);
        }
        unreachable!()
    }

    /// A scan that is read while the store goes on, or not read to its end.
    fn held(&mut self, r: &mut Rng, t: usize) -> Result<&'static str, (String, String)> {
        let m = &self.models[t];
        let proj: Vec<usize> = (0..m.fields.len()).collect();
        self.trace.push(format!("begin scan {}", m.tbl));
        let mut h = self.db.begin(&m.tbl, &proj).map_err(|e| ("scan-failed".to_string(), e))?;
        let at_begin = self.models.clone();
        let mut got = h.take(r.below(3)).map_err(|e| ("scan-failed".to_string(), e))?;
        let saved = self.cfg.clone();
        self.cfg.held = 0;
        self.cfg.reopen = 0;
        self.cfg.backup = 0;
        self.cfg.gc = 0; // the collector may leave the files being read
        for _ in 0..r.below(10) {
            self.step(r)?;
            if self.cfg.compact > 0 && r.chance(1, 3) {
                self.trace.push("gc while scanning".into());
                self.db.gc().map_err(|e| ("collection-failed".to_string(), e))?;
            }
        }
        self.cfg = saved;
        if r.chance(1, 4) {
            self.trace.push("drop scan".into());
            drop(h);
            return Ok("dropped scan");
        }
        self.trace.push("finish scan".into());
        got.append(&mut h.take(usize::MAX).map_err(|e| ("held-scan-failed".to_string(), e))?);
        drop(h);
        let now = std::mem::replace(&mut self.models, at_begin);
        let res = self.check_scan(t, &proj, &got);
        self.models = now;
        res.map_err(|(k, m)| (format!("held-{k}"), m))?;
        Ok("held scan")
    }

    pub fn check_schema(&self) -> Result<(), (String, String)> {
        for m in &self.models {
            let s = self.db.db().schema(&m.tbl).map_err(|e| ("table-lost".to_string(), format!("{}: {e:?}", m.tbl)))?;
            let got: Vec<(String, String)> = s.fields.iter().map(|f| (f.name.clone(), format!("{:?}", f.data_type))).collect();
            let exp: Vec<(String, String)> = m
                .fields
                .iter()
                .map(|f| (f.name.clone(), format!("{:?}", arrow2::datatypes::DataType::try_from(f.ty.clone()).unwrap())))
                .collect();
            if got != exp {
                return Err(("schema-changed".into(), format!("{}: columns {got:?}, expected {exp:?}", m.tbl)));
            }
        }
        Ok(())
    }

    /// Takes a backup, restores it (into a fresh store or over this one after more writes) and
    /// compares with the contents at the time of the backup.
    pub fn backup(&mut self, r: &mut Rng) -> Result<(), (String, String)> {
        let file = self.db.dir.with_extension("bak");
        self.trace.push("backup".into());
        guarded(|| self.db.db().full_backup_local(&file, |_| {}).map_err(|e| format!("{e:?}")))
            .and_then(|x| x)
            .map_err(|e| ("backup-failed".to_string(), e))?;
        // the original is unchanged
        for t in 0..self.models.len() {
            self.scan_full(t)?;
        }
        let at_backup = self.models.clone();
        if r.bool() {
            // keep writing, then restore into another store
            for _ in 0..r.below(4) {
                let t = r.below(self.models.len());
                self.insert(r, t)?;
            }
            let dir2 = self.db.dir.with_extension(format!("r{}", self.trace.len()));
            let mut other = Db::open(&dir2).map_err(|e| ("reopen-failed".to_string(), e))?;
            if r.bool() {
                // what the other store held is replaced
                let o = gen_options(r, 1, false);
                let mut m = create(&other, r, "old", o, 1).map_err(|e| ("insert-failed".to_string(), e))?;
                let (n, row) = gen_row(r, &m, &[1]);
                insert(&other, &mut m, n, row).map_err(|e| ("insert-failed".to_string(), e))?;
            }
            self.trace.push(format!("restore into {}", dir2.display()));
            guarded(|| other.db().full_restore_local(&file).map_err(|e| format!("{e:?}")))
                .and_then(|x| x)
                .map_err(|e| ("restore-failed".to_string(), e))?;
            let mut h2 = H {
                db: other,
                models: at_backup,
                trace: self.trace.clone(),
                cfg: Cfg { backup: 0, ..self.cfg.clone() },
                spread: self.spread,
                version: self.version,
            };
            let res = h2.after_restore(r);
            self.trace = std::mem::take(&mut h2.trace);
            res?;
            for t in 0..self.models.len() {
                self.scan_full(t)?;
            }
        } else {
            // over this store, with rows written since the backup
            for _ in 0..r.below(5) {
                let t = r.below(self.models.len());
                self.insert(r, t)?;
                if r.chance(1, 3) {
                    self.db.flush(&self.models[t].tbl.clone()).map_err(|e| ("flush-failed".to_string(), e))?;
                }
            }
            self.trace.push("restore here".into());
            guarded(|| self.db.db().full_restore_local(&file).map_err(|e| format!("{e:?}")))
                .and_then(|x| x)
                .map_err(|e| ("restore-failed".to_string(), e))?;
            self.models = at_backup;
            self.after_restore(r)?;
        }
        Ok(())
    }

    fn after_restore(&mut self, r: &mut Rng) -> Result<(), (String, String)> {
        self.check_schema().map_err(|(k, m)| (format!("restored-{k}"), m))?;
        for t in 0..self.models.len() {
            self.scan_full(t).map_err(|(k, m)| (format!("restored-{k}"), m))?;
        }
        let saved = self.cfg.clone();
        self.cfg.backup = 0;
        for _ in 0..r.below(12) {
            self.step(r).map_err(|(k, m)| (format!("after-restore-{k}"), m))?;
        }
        // and across a restart
        self.trace.push("reopen".into());
        let dir = self.db.dir.clone();
        self.db.close();
        self.db = Db::open(&dir).map_err(|e| ("after-restore-reopen-failed".to_string(), e))?;
        self.check_schema().map_err(|(k, m)| (format!("after-restore-{k}"), m))?;
        for t in 0..self.models.len() {
            self.scan_full(t).map_err(|(k, m)| (format!("after-restore-{k}"), m))?;
        }
        self.cfg = saved;
        Ok(())
    }
}

pub fn check_replacing(m: &Model, proj: &[usize], got: &[Row]) -> Result<(), (String, String)> {
    let n = m.keys();
    let full = m.full();
    let mut p = proj.to_vec();
    p.sort();
    let pk = |row: &Row| row[..n - 1].iter().map(key_of).collect::<Vec<_>>();
    let mut newest: BTreeMap<Vec<i64>, i64> = BTreeMap::new();
    for row in &full {
        let e = newest.entry(pk(row)).or_insert(i64::MIN);
        *e = (*e).max(key_of(&row[n - 1]));
    }
    if !sorted_by(got, n) {
        return Err(("scan-order".into(), "rows are not in key order".into()));
    }
    let mut seen = BTreeSet::new();
    let mut full_keys = BTreeSet::new();
    for row in got {
        let k = pk(row);
        let ver = key_of(&row[n - 1]);
        let fk = (k.clone(), ver);
        if !full_keys.insert(fk.clone()) {
            return Err(("replacing-duplicate".into(), format!("key {k:?} version {ver} is returned twice")));
        }
        let cand: Vec<Row> = full
            .iter()
            .filter(|r| pk(r) == k && key_of(&r[n - 1]) == ver)
            .map(|r| p.iter().map(|i| r[*i].clone()).collect())
            .collect();
        if cand.is_empty() {
            return Err(("replacing-invented".into(), format!("row {row:?} was never inserted")));
        }
        if !cand.contains(row) {
            return Err(("replacing-mixed".into(), format!("key {k:?} version {ver} reads {row:?}; it was inserted as {cand:?}")));
        }
        if newest.get(&k) == Some(&ver) {
            seen.insert(k);
        }
    }
    for (k, v) in &newest {
        if !seen.contains(k) {
            return Err(("replacing-lost".into(), format!("key {k:?}: the newest version {v} is not returned")));
        }
    }
    Ok(())
}

pub fn read_file(path: &Path) -> Result<Vec<Row>, String> {
    guarded(|| -> Result<Vec<Row>, String> {
        use arrow2::io::parquet::read;
        let mut f = std::fs::File::open(path).map_err(|e| e.to_string())?;
        let md = read::read_metadata(&mut f).map_err(|e| e.to_string())?;
        let schema = read::infer_schema(&md).map_err(|e| e.to_string())?;
        let mut out = vec![];
        for c in read::FileReader::new(f, md.row_groups, schema, None, None, None) {
            out.append(&mut chunk_rows(&c.map_err(|e| e.to_string())?)?);
        }
        Ok(out)
    })?
}

fn run(mon: &mut Mon, n: usize, budget: (u64, u64), mk: impl Fn(&mut Rng) -> Cfg) {
    gate::install();
    for i in 0..n {
        if !mon.within(budget.0, budget.1) {
            break;
        }
        let mut r = mon.rng.fork();
        let cfg = mk(&mut r);
        let dir = scratch();
        let path = dir.path().join("db");
        let h = H::new(&path, &mut r, cfg.clone());
        let mut h = match h {
            Ok(h) => h,
            Err(e) => {
                mon.violation("open-failed", format!("creating a store failed: {e}"), json!(format!("{cfg:?}")));
                continue;
            }
        };
        let mut ok = true;
        let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut fail = |mon: &mut Mon, h: &H, (k, m): (String, String)| {
            mon.violation(&k, format!("history {i}: {m}"), json!({"history": h.trace, "message": m}));
        };
        for _ in 0..cfg.ops {
            match h.step(&mut r) {
                Ok(k) => *kinds.entry(k).or_insert(0) += 1,
                Err(e) => {
                    fail(mon, &h, e);
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            // end state: every table, the file layout, every projection class
            let mut last = || -> Result<(u64, u64), (String, String)> {
                let mut fs = (0, 0);
                for t in 0..h.models.len() {
                    h.scan_full(t)?;
                    if h.cfg.compact > 0 || h.cfg.replacing {
                        let x = h.check_levels(t)?;
                        fs = (fs.0 + x.0, fs.1 + x.1);
                    }
                }
                Ok(fs)
            };
            match last() {
                Ok(fs) => {
                    mon.count("files_inspected", fs.0);
                    mon.count("files_below_level_0", fs.1);
                }
                Err(e) => {
                    fail(mon, &h, e);
                    ok = false;
                }
            }
        }
        for p in gate::take_panics() {
            mon.violation("background-panic", format!("a background thread panicked: {p}"), json!({"history": h.trace}));
        }
        for (k, n) in &kinds {
            mon.count(k, *n);
        }
        let rows: usize = h.models.iter().map(|m| m.rows.len()).sum();
        mon.count("rows", rows as u64);
        mon.count("histories", 1);
        mon.observed(&h.trace, ok && rows > 3 && kinds.len() > 2);
        mon.sample(|| json!({"table": h.trace[0], "operations": kinds.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>(), "rows": rows}));
        h.db.close();
    }
}

pub fn s01(mon: &mut Mon) {
    mon.rule("a history is non-trivial when it inserted more than 3 rows and mixed at least three kinds of operations; distinct by its whole operation list");
    let n = mon.n(260, 4000);
    run(mon, n, (60, 560), |r| Cfg {
        index_cols: 1 + r.below(2),
        ops: 20 + r.below(60),
        flush: *r.pick(&[0, 5, 20, 60]),
        scan: 15,
        proj: 15,
        get: 0,
        tables: 1 + r.below(2),
        ..Default::default()
    });
    for k in ["insert", "flush", "scan", "proj"] {
        mon.require(k, 200);
    }
}

pub fn s03(mon: &mut Mon) {
    mon.rule("a history is non-trivial when it inserted more than 3 rows of a replacing table and mixed at least three kinds of operations; distinct by its whole operation list");
    let n = mon.n(1500, 20000);
    run(mon, n, (35, 560), |r| Cfg {
        index_cols: 2,
        replacing: true,
        ops: 20 + r.below(60),
        flush: *r.pick(&[0, 5, 20, 60]),
        compact: *r.pick(&[0, 0, 10, 30]),
        gc: 3,
        held: 3,
        scan: 20,
        get: 30,
        proj: 6,
        reopen: 2,
        tables: 1,
        ..Default::default()
    });
    for k in ["insert", "flush", "scan", "get-hit", "compact"] {
        mon.require(k, 100);
    }
}

pub fn s04(mon: &mut Mon) {
    mon.rule("a history is non-trivial when it inserted more than 3 rows and mixed at least three kinds of operations including compaction rounds; distinct by its whole operation list");
    let n = mon.n(1500, 20000);
    run(mon, n, (45, 560), |r| Cfg {
        index_cols: 1 + r.below(2),
        ops: 30 + r.below(120),
        flush: *r.pick(&[10, 30, 60]),
        compact: *r.pick(&[5, 20, 40]),
        gc: 8,
        held: 6,
        scan: 12,
        proj: 5,
        get: 0,
        reopen: 2,
        tables: 1 + r.below(2),
        ..Default::default()
    });
    for k in ["insert", "flush", "scan", "compact", "gc"] {
        mon.require(k, 200);
    }
    mon.require("files_below_level_0", 100);
    mon.require("held scan", 20);
    mon.require("dropped scan", 5);
}

pub fn s05(mon: &mut Mon) {
    mon.rule("a history is non-trivial when it inserted more than 3 rows and mixed at least three kinds of operations including column additions; distinct by its whole operation list");
    let n = mon.n(260, 4000);
    run(mon, n, (60, 560), |r| Cfg {
        index_cols: 1 + r.below(2),
        ops: 20 + r.below(60),
        flush: *r.pick(&[0, 10, 30]),
        compact: *r.pick(&[0, 5, 20]),
        gc: 3,
        scan: 15,
        proj: 20,
        add: *r.pick(&[10, 25]),
        reopen: 6,
        tables: 1 + r.below(2),
        ..Default::default()
    });
    for k in ["insert", "flush", "scan", "proj", "add", "reopen", "compact"] {
        mon.require(k, 100);
    }
}

pub fn s06(mon: &mut Mon) {
    mon.rule("a history is non-trivial when it inserted more than 3 rows and mixed at least three kinds of operations including a backup that was restored; distinct by its whole operation list");
    let n = mon.n(120, 2000);
    run(mon, n, (80, 560), |r| Cfg {
        index_cols: 1 + r.below(2),
        ops: 20 + r.below(50),
        flush: *r.pick(&[0, 10, 30]),
        compact: *r.pick(&[0, 5, 20]),
        gc: 3,
        scan: 10,
        proj: 5,
        add: 4,
        reopen: 4,
        backup: 10,
        tables: 1 + r.below(3),
        ..Default::default()
    });
    mon.require("backup", 60);
}

#[allow(dead_code)]
fn unused(_: DType, _: Value) {}
