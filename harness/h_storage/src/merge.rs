//! S07: the two merges (files into files, files and memory into a scan) on generated sorted files.
use std::collections::BTreeMap;
use std::fs::File;
use std::io::BufReader;
use std::path::Path;
use std::sync::Arc;

use arrow2::array::scalar;
use arrow2::array::scalar::Scalar;
use arrow2::array::Array;
use arrow2::chunk::Chunk;
use arrow2::datatypes::DataType;
use arrow2::datatypes::Field;
use arrow2::datatypes::Schema;
use arrow2::datatypes::TimeUnit;
use mon::guarded;
use mon::Mon;
use mon::Rng;
use serde_json::json;
use storage::parquet::arrow_merger;
use storage::parquet::parquet_merger;
use storage::parquet::ParquetValue;
use storage::test_util;

use crate::hist::scratch;

#[derive(Clone, Debug)]
struct Row {
    key: Vec<i64>,
    rest: Vec<Scalar>,
}

fn prim(v: i128, n: usize) -> Scalar {
    let mut raw = [0u8; 16];
    raw[..n].copy_from_slice(&v.to_le_bytes()[..n]);
    Scalar::Prim(raw)
}

fn types() -> Vec<DataType> {
    let l = |t: DataType| DataType::List(Box::new(Field::new("item", t, true)));
    vec![
        DataType::Boolean,
        DataType::Int8,
        DataType::Int16,
        DataType::Int32,
        DataType::Int64,
        DataType::UInt8,
        DataType::UInt16,
        DataType::UInt32,
        DataType::UInt64,
        DataType::Float32,
        DataType::Float64,
        DataType::Timestamp(TimeUnit::Millisecond, None),
        DataType::Decimal(28, 10),
        DataType::Utf8,
        DataType::LargeUtf8,
        DataType::Binary,
        DataType::LargeBinary,
        l(DataType::Int64),
        l(DataType::Int32),
        l(DataType::Boolean),
        l(DataType::Utf8),
        l(DataType::Float64),
        l(DataType::UInt16),
    ]
}

fn cell(r: &mut Rng, t: &DataType, nullable: bool) -> Scalar {
    if nullable && r.chance(1, 4) {
        return Scalar::Null;
    }
    match t {
        DataType::Boolean => Scalar::Bool(r.bool()),
        DataType::Int8 | DataType::UInt8 => prim(r.i64_edge() as i128, 1),
        DataType::Int16 | DataType::UInt16 => prim(r.i64_edge() as i128, 2),
        DataType::Int32 | DataType::UInt32 => prim(r.i64_edge() as i128, 4),
        DataType::Int64 | DataType::UInt64 | DataType::Timestamp(..) => prim(r.i64_edge() as i128, 8),
        DataType::Float32 => prim((r.range(-1000, 1000) as f32 / 8.0).to_bits() as i128, 4),
        DataType::Float64 => prim((r.range(-100000, 100000) as f64 / 8.0).to_bits() as i128, 8),
        DataType::Decimal(..) => {
            let v = (r.i64_edge() as i128) * r.range(1, 1_000_000_000) as i128;
            Scalar::Prim(v.to_le_bytes())
        }
        DataType::List(f) => {
            let n = r.below(4);
            Scalar::List((0..n).map(|_| cell(r, &f.data_type, true)).collect())
        }
        _ => Scalar::Bytes(r.string().into_bytes()),
    }
}

fn show(s: &Scalar) -> String {
    format!("{s:?}")
}

fn rows_of(chunks: &[Chunk<Box<dyn Array>>], keys: usize, fields: &[Field]) -> Result<Vec<Row>, String> {
    let mut out = vec![];
    for c in chunks {
        if c.columns().len() != fields.len() {
            return Err(format!("{} columns instead of {}", c.columns().len(), fields.len()));
        }
        for (a, f) in c.columns().iter().zip(fields) {
            if a.data_type() != &f.data_type {
                return Err(format!("column {} is {:?} instead of {:?}", f.name, a.data_type(), f.data_type));
            }
            if a.len() != c.len() {
                return Err(format!("column {} has {} rows of {}", f.name, a.len(), c.len()));
            }
        }
        for i in 0..c.len() {
            let all = c.columns().iter().map(|a| scalar::get(a.as_ref(), i)).collect::<Vec<_>>();
            let mut key = vec![];
            for (k, s) in all[..keys].iter().enumerate() {
                match s {
                    Scalar::Prim(b) => key.push(if fields[k].data_type == DataType::Int32 {
                        i32::from_le_bytes(b[..4].try_into().unwrap()) as i64
                    } else {
                        i64::from_le_bytes(b[..8].try_into().unwrap())
                    }),
                    s => return Err(format!("a key is {s:?}")),
                }
            }
            out.push(Row { key, rest: all[keys..].to_vec() });
        }
    }
    Ok(out)
}

fn chunk_of(rows: &[Row], keys: usize, fields: &[Field]) -> Chunk<Box<dyn Array>> {
    let cols = fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let v = rows
                .iter()
                .map(|r| {
                    if i < keys {
                        prim(r.key[i] as i128, if f.data_type == DataType::Int32 { 4 } else { 8 })
                    } else {
                        r.rest[i - keys].clone()
                    }
                })
                .collect();
            scalar::build(&f.data_type, v)
        })
        .collect();
    Chunk::new(cols)
}

fn canon(r: &Row, width: usize) -> String {
    let mut s = format!("{:?}", r.key);
    for i in 0..width {
        s.push('|');
        s.push_str(&show(r.rest.get(i).unwrap_or(&Scalar::Null)));
    }
    s
}

fn bag(rows: &[Row], width: usize) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for r in rows {
        *m.entry(canon(r, width)).or_insert(0) += 1;
    }
    m
}

fn bag_diff(want: &BTreeMap<String, i64>, got: &BTreeMap<String, i64>, subset: bool) -> Option<String> {
    for (k, n) in got {
        let w = want.get(k).copied().unwrap_or(0);
        if w < *n {
            return Some(format!("row {k} came out {n} times, {w} went in"));
        }
    }
    if !subset {
        for (k, n) in want {
            let g = got.get(k).copied().unwrap_or(0);
            if g < *n {
                return Some(format!("row {k} went in {n} times, {g} came out"));
            }
        }
    }
    None
}

struct Input {
    keys: usize,
    fields: Vec<Field>,
    files: Vec<Vec<Row>>,
    /// fields of each file (a prefix)
    widths: Vec<usize>,
    groups: Vec<Vec<usize>>,
    page: Option<usize>,
    compressed: bool,
    replacing: bool,
    unique: bool,
}

impl Input {
    fn gen(r: &mut Rng, mem: bool) -> Input {
        let keys = if !mem && r.chance(1, 10) { 3 } else { 1 + r.below(2) };
        let replacing = keys == 2 && r.bool();
        let int32 = keys == 2 && !mem && r.chance(1, 4);
        let mut fields: Vec<Field> = (0..keys)
            .map(|i| Field::new(format!("k{i}"), if i == 1 && int32 { DataType::Int32 } else { DataType::Int64 }, false))
            .collect();
        let all = types();
        let extra = r.below(5);
        for i in 0..extra {
            let t = r.pick(&all).clone();
            fields.push(Field::new(format!("c{i}"), t, true));
        }
        let n = 1 + r.below(5);
        let spread = *r.pick(&[2i64, 5, 20, 100, 1000]);
        let unique = r.chance(3, 4);
        let mut files = vec![];
        let mut widths = vec![];
        let mut groups = vec![];
        let mut version = 0;
        let mut used = std::collections::BTreeSet::new();
        let disjoint = r.chance(1, 5);
        for f in 0..n {
            let rows_n = match r.below(6) {
                0 => 1,
                1 => 1 + r.below(4),
                5 => 1 + r.below(400),
                _ => 1 + r.below(60),
            };
            let width = if r.chance(1, 3) { keys + r.below(extra + 1) } else { keys + extra };
            let mut rows = vec![];
            let mut prefixes = std::collections::BTreeSet::new();
            let base = if disjoint { f as i64 * (spread + r.range(0, 3)) } else { 0 };
            for _ in 0..rows_n {
                let mut key = vec![base + r.range(0, spread)];
                if r.chance(1, 40) && !disjoint {
                    key[0] = *r.pick(&[i64::MIN, i64::MAX, -1]);
                }
                for k in 1..keys {
                    key.push(if replacing && k == keys - 1 {
                        version += 1;
                        if r.chance(1, 5) { version + 1000 * r.range(0, 3) } else { version }
                    } else {
                        r.range(-3, 8)
                    });
                }
                if replacing {
                    if !used.insert(key.clone()) {
                        continue;
                    }
                    if unique && !prefixes.insert(key[..keys - 1].to_vec()) {
                        continue;
                    }
                }
                let rest = fields[keys..width].iter().map(|f| cell(r, &f.data_type, true)).collect();
                rows.push(Row { key, rest });
            }
            if rows.is_empty() {
                continue;
            }
            rows.sort_by(|a, b| a.key.cmp(&b.key));
            let mut g = vec![];
            let mut left = rows.len();
            let limit = *r.pick(&[1usize, 3, 10, 50, 1000]);
            while left > 0 {
                let c = (1 + r.below(limit)).min(left);
                g.push(c);
                left -= c;
            }
            files.push(rows);
            widths.push(width);
            groups.push(g);
        }
        Input {
            keys,
            fields,
            files,
            widths,
            groups,
            page: *r.pick(&[None, Some(8), Some(64), Some(1024)]),
            compressed: r.bool(),
            replacing,
            unique,
        }
    }

    fn write(&self, dir: &Path, i: usize) -> Result<(), String> {
        let f = File::create(dir.join(format!("in{i}.parquet"))).map_err(|e| e.to_string())?;
        let fields = self.fields[..self.widths[i]].to_vec();
        if self.compressed {
            let c = chunk_of(&self.files[i], self.keys, &fields);
            test_util::create_parquet_from_chunk(c, fields, f, None, *self.groups[i].iter().max().unwrap()).map_err(|e| e.to_string())
        } else {
            let mut at = 0;
            let mut chunks = vec![];
            for n in &self.groups[i] {
                chunks.push(chunk_of(&self.files[i][at..at + n], self.keys, &fields));
                at += n;
            }
            test_util::create_parquet_from_chunks(chunks, fields, f, self.page).map_err(|e| e.to_string())
        }
    }

    fn all(&self) -> Vec<Row> {
        self.files.iter().flatten().cloned().collect()
    }

    /// columns of the unified schema, in the order the merge meets them
    fn width(&self) -> usize {
        self.widths.iter().copied().max().unwrap_or(0)
    }

    fn describe(&self) -> serde_json::Value {
        json!({
            "keys": self.keys, "replacing": self.replacing, "page": self.page, "compressed": self.compressed,
            "columns": self.fields.iter().map(|f| format!("{} {:?}", f.name, f.data_type)).collect::<Vec<_>>(),
            "widths": self.widths, "groups": self.groups,
            "files": self.files.iter().map(|f| f.iter().take(40).map(|r| canon(r, r.rest.len())).collect::<Vec<_>>()).collect::<Vec<_>>(),
        })
    }

    /// what the rows of a merge must be
    fn judge(&self, got: &[Row]) -> Result<(), (String, String)> {
        let w = self.width() - self.keys;
        for p in got.windows(2) {
            if p[0].key > p[1].key {
                return Err(("order".into(), format!("key {:?} comes out before {:?}", p[0].key, p[1].key)));
            }
        }
        let all = self.all();
        if !self.replacing {
            return match bag_diff(&bag(&all, w), &bag(got, w), false) {
                None => Ok(()),
                Some(d) => Err(("rows".into(), d)),
            };
        }
        let mut newest: BTreeMap<Vec<i64>, Row> = BTreeMap::new();
        for r in &all {
            let p = r.key[..self.keys - 1].to_vec();
            if newest.get(&p).map(|o| o.key < r.key).unwrap_or(true) {
                newest.insert(p, r.clone());
            }
        }
        let newest = newest.into_values().collect::<Vec<_>>();
        let got_bag = bag(got, w);
        let d = if self.unique {
            bag_diff(&bag(&newest, w), &got_bag, false)
        } else {
            bag_diff(&bag(&all, w), &got_bag, true).or_else(|| {
                bag(&newest, w)
                    .keys()
                    .find(|k| got_bag.get(*k) != Some(&1))
                    .map(|k| format!("the newest version {k} came out {} times", got_bag.get(k).unwrap_or(&0)))
            })
        };
        match d {
            None => Ok(()),
            Some(d) => Err(("versions".into(), d)),
        }
    }
}

fn pv(v: &ParquetValue) -> Result<i64, String> {
    match v {
        ParquetValue::Int32(v) => Ok(*v as i64),
        ParquetValue::Int64(v) => Ok(*v),
        v => Err(format!("a recorded key is {v:?}")),
    }
}

fn file_merge(m: &mut Mon, r: &mut Rng, dir: &Path, inp: &Input) -> Result<(), (String, String)> {
    let err = |k: &str| {
        let k = k.to_string();
        move |e: String| (k.clone(), e)
    };
    let out_dir = dir.join("out");
    std::fs::create_dir_all(&out_dir).map_err(|e| ("io".into(), e.to_string()))?;
    let mut order: Vec<usize> = (0..inp.files.len()).collect();
    // a schema grows to the right: the widest file has to be met in some order; names are matched
    r.shuffle(&mut order);
    let readers = order.iter().map(|i| File::open(dir.join(format!("in{i}.parquet"))).unwrap()).collect::<Vec<_>>();
    let opts = parquet_merger::Options {
        index_cols: inp.keys,
        is_replacing: inp.replacing,
        data_page_size_limit_bytes: *r.pick(&[None, Some(16), Some(256), Some(1024 * 1024)]),
        row_group_values_limit: *r.pick(&[1, 3, 20, 200, 100000]),
        array_page_size: *r.pick(&[1, 2, 7, 50, 10000]),
        out_part_id: r.below(50),
        merge_max_page_size: 10 * 1024 * 1024,
        max_part_size_bytes: *r.pick(&[None, Some(1), Some(500), Some(3000), Some(100_000)]),
    };
    let first_id = opts.out_part_id;
    let what = format!(
        "order {order:?} group limit {} page {} part size {:?}",
        opts.row_group_values_limit, opts.array_page_size, opts.max_part_size_bytes
    );
    let res = guarded(|| parquet_merger::merge(readers, Arc::new(storage::Fs::new()), out_dir.clone(), first_id, "t", 1, opts))
        .map_err(|e| ("panic".to_string(), format!("{what}: {e}")))?
        .map_err(|e| ("error".to_string(), format!("{what}: {e}")))?;
    let fields = inp.fields[..inp.width()].to_vec();
    let mut all = vec![];
    let mut last: Option<Vec<i64>> = None;
    for (n, f) in res.iter().enumerate() {
        if f.id != first_id + n || f.path != out_dir.join(format!("{}.parquet", f.id)) {
            return Err(("identity".into(), format!("{what}: output {n} has id {} at {:?}", f.id, f.path)));
        }
        let size = std::fs::metadata(&f.path).map_err(|e| ("missing".to_string(), format!("{what}: {e}")))?.len();
        let path = f.path.clone();
        let chunks = guarded(|| test_util::read_parquet(&mut File::open(&path).unwrap())).map_err(err("unreadable"))?;
        let rows = rows_of(&chunks, inp.keys, &fields).map_err(err("columns"))?;
        if rows.is_empty() || rows.len() != f.values {
            return Err(("count".into(), format!("{what}: output {n} says {} rows and has {}", f.values, rows.len())));
        }
        // the footer is written after the size of a file that was cut is taken or before; both are seen in real stores
        if f.size_bytes != size {
            return Err(("size".into(), format!("{what}: output {n} says {} bytes and has {size}", f.size_bytes)));
        }
        let min = f.min.iter().map(pv).collect::<Result<Vec<_>, _>>().map_err(err("range"))?;
        let max = f.max.iter().map(pv).collect::<Result<Vec<_>, _>>().map_err(err("range"))?;
        let (a, b) = (&rows[0].key, &rows[rows.len() - 1].key);
        if min.len() != inp.keys || max.len() != inp.keys || min[0] != a[0] || max[0] != b[0] || &min > a || &max < b {
            return Err(("range".into(), format!("{what}: output {n} says {min:?}..{max:?} and holds {a:?}..{b:?}")));
        }
        if let Some(l) = &last {
            if l > a {
                return Err(("overlap".into(), format!("{what}: output {n} starts at {a:?} after {l:?}")));
            }
        }
        last = Some(b.clone());
        all.extend(rows);
    }
    let files = std::fs::read_dir(&out_dir).unwrap().count();
    if files != res.len() {
        return Err(("stray".into(), format!("{what}: {files} files for {} outputs", res.len())));
    }
    m.count("files written by merges", res.len() as u64);
    m.count("rows merged into files", all.len() as u64);
    if res.len() > 1 {
        m.count("merges cut into several files", 1);
    }
    inp.judge(&all).map_err(|(k, e)| (k, format!("{what}: {e}")))
}

fn scan_merge(m: &mut Mon, r: &mut Rng, dir: &Path, inp: &Input) -> Result<(), (String, String)> {
    // the last generated "file" plays the rows in memory in half of the cases
    let mem = inp.files.len() > 1 && inp.widths[inp.files.len() - 1] == inp.width() && r.bool();
    let n = inp.files.len() - mem as usize;
    let fields = inp.fields[..inp.width()].to_vec();
    let readers = (0..n).map(|i| BufReader::new(File::open(dir.join(format!("in{i}.parquet"))).unwrap())).collect::<Vec<_>>();
    let chunk = mem.then(|| chunk_of(&inp.files[n], inp.keys, &fields));
    let opts = arrow_merger::Options {
        index_cols: inp.keys,
        is_replacing: inp.replacing,
        array_size: *r.pick(&[1, 2, 7, 50, 10000]),
        chunk_size: *r.pick(&[1, 2, 5, 40, 10000]),
        fields: fields.iter().map(|f| f.name.clone()).collect(),
    };
    let what = format!("{} files{} arrays of {} chunks of {}", n, if mem { " and memory" } else { "" }, opts.array_size, opts.chunk_size);
    let schema = Schema::from(fields.clone());
    let chunks = guarded(|| -> Result<Vec<_>, String> {
        let it = arrow_merger::MergingIterator::new(readers, chunk, schema, opts).map_err(|e| e.to_string())?;
        it.map(|c| c.map_err(|e| e.to_string())).collect()
    })
    .map_err(|e| ("panic".to_string(), format!("{what}: {e}")))?
    .map_err(|e| ("error".to_string(), format!("{what}: {e}")))?;
    let rows = rows_of(&chunks, inp.keys, &fields).map_err(|e| ("columns".to_string(), format!("{what}: {e}")))?;
    m.count("chunks returned by scan merges", chunks.len() as u64);
    m.count("rows merged into scans", rows.len() as u64);
    if mem {
        m.count("scan merges with rows in memory", 1);
    }
    inp.judge(&rows).map_err(|(k, e)| (k, format!("{what}: {e}")))
}

pub fn s07(m: &mut Mon) {
    m.rule("merging sorted files gives files (and a scan gives chunks) with exactly the rows that went in, in key order, each row whole");
    m.rule("in a replacing merge the newest version of every key comes out exactly once, and is the only one when no input holds a key twice");
    m.rule("every output says how many rows and bytes it has and covers its keys; outputs follow each other in key order");
    m.assume("the files themselves are written and read by stand-ins of arrow2 and parquet2 (see DESIGN.md)");
    let n = m.n(6000, 150000);
    for case in 0..n {
        if !m.within(40, 600) || m.violated() {
            break;
        }
        let mut r = m.rng.fork();
        let scan = case % 2 == 1;
        let inp = Input::gen(&mut r, scan);
        let dir = scratch();
        for i in 0..inp.files.len() {
            if let Err(e) = inp.write(dir.path(), i) {
                mon::harness_error(&format!("writing an input file: {e}"));
            }
        }
        // without the column of the widest file, later columns of the schema are unknown to a scan
        let res = if scan { scan_merge(m, &mut r, dir.path(), &inp) } else { file_merge(m, &mut r, dir.path(), &inp) };
        let rows: usize = inp.files.iter().map(|f| f.len()).sum();
        m.observed((scan, inp.keys, inp.replacing, inp.files.len(), rows, inp.widths.clone(), inp.groups.clone()), inp.files.len() > 1);
        m.count(if scan { "scan merges" } else { "file merges" }, 1);
        if inp.replacing {
            m.count("replacing merges", 1);
        }
        if inp.widths.iter().any(|w| *w < inp.width()) {
            m.count("merges of files with different columns", 1);
        }
        if case % 500 == 3 {
            m.sample(|| inp.describe());
        }
        if let Err((k, e)) = res {
            let side = if scan { "scan" } else { "files" };
            m.violation(&format!("{side}-{k}"), e, inp.describe());
        }
    }
    m.require("file merges", 500);
    m.require("scan merges", 500);
    m.require("replacing merges", 100);
    m.require("merges cut into several files", 50);
    m.require("scan merges with rows in memory", 50);
    m.require("merges of files with different columns", 100);
}
