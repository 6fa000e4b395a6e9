//! Stand-in for the part of rust-rocksdb that optiprism uses: a TransactionDB with pessimistic
//! transactions. Semantics kept: writes of a transaction lock their keys until commit or drop
//! (waiting at most the lock timeout, then TimedOut); `get` sees committed data and the
//! transaction's own writes, takes no lock and has no snapshot; `get_for_update` locks; a commit
//! is atomic and durable; an iterator sees the data committed when it was made and own writes;
//! a prefix iterator without a prefix extractor runs to the end of the key space.
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::fmt;
use std::fs::File;
use std::fs::OpenOptions;
use std::io::Read;
use std::io::Write;
use std::marker::PhantomData;
use std::path::Path;
use std::path::PathBuf;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;
use std::sync::Condvar;
use std::sync::Mutex;
use std::sync::RwLock;
use std::time::Duration;
use std::time::Instant;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    InvalidArgument,
    IOError,
    Busy,
    TimedOut,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}
impl Error {
    fn new(kind: ErrorKind, m: impl ToString) -> Self {
        Error { kind, message: m.to_string() }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::new(ErrorKind::IOError, e)
    }
}

#[derive(Clone, Default, Debug)]
pub struct Options {
    create_if_missing: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, _v: bool) {}
}
#[derive(Clone, Default, Debug)]
pub struct TransactionDBOptions {}
impl TransactionDBOptions {
    pub fn new() -> Self {
        Self {}
    }
}
#[derive(Clone, Default, Debug)]
pub struct TransactionOptions {}
#[derive(Clone, Default, Debug)]
pub struct WriteOptions {}
#[derive(Clone, Debug)]
pub struct ColumnFamilyDescriptor {
    _name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new(name: impl Into<String>, _o: Options) -> Self {
        Self { _name: name.into() }
    }
}
pub struct SingleThreaded;
pub struct MultiThreaded;

/// Instrumentation: called before every operation with its name and key;
/// answering true makes the operation fail with an I/O error (not for "iterate").
pub mod hook {
    use std::sync::atomic::AtomicBool;
    use std::sync::atomic::Ordering;
    use std::sync::RwLock;
    type F = Box<dyn Fn(&'static str, &[u8]) -> bool + Send + Sync>;
    static ON: AtomicBool = AtomicBool::new(false);
    static HOOK: RwLock<Option<F>> = RwLock::new(None);
    pub fn set(f: Option<F>) {
        ON.store(f.is_some(), Ordering::SeqCst);
        *HOOK.write().unwrap() = f;
    }
    pub(crate) fn call(op: &'static str, key: &[u8]) -> Result<(), super::Error> {
        if ON.load(Ordering::Relaxed) {
            if let Some(f) = HOOK.read().unwrap().as_ref() {
                if f(op, key) {
                    return Err(super::Error::new(super::ErrorKind::IOError, "IO error: injected"));
                }
            }
        }
        Ok(())
    }
}

static LOCK_TIMEOUT_MS: AtomicU64 = AtomicU64::new(1000);
pub fn set_lock_timeout_ms(v: u64) {
    LOCK_TIMEOUT_MS.store(v, Ordering::SeqCst);
}

#[derive(Default)]
struct Locks {
    owner: HashMap<Vec<u8>, u64>,
}

pub struct TransactionDB<T = SingleThreaded> {
    data: RwLock<BTreeMap<Vec<u8>, Vec<u8>>>,
    wal: Mutex<File>,
    locks: Mutex<Locks>,
    freed: Condvar,
    next_tx: AtomicU64,
    path: PathBuf,
    _p: PhantomData<fn() -> T>,
}

type Batch = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as u32).to_le_bytes());
    out.extend(b);
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if b.len() < n {
        return None;
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Some(x)
}
fn take_u32(b: &mut &[u8]) -> Option<usize> {
    Some(u32::from_le_bytes(take(b, 4)?.try_into().unwrap()) as usize)
}

impl<T> TransactionDB<T> {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(
        opts: &Options,
        _tx: &TransactionDBOptions,
        path: P,
        _cfs: I,
    ) -> Result<Self, Error> {
        let path = path.as_ref().to_path_buf();
        if !path.exists() && !opts.create_if_missing {
            return Err(Error::new(ErrorKind::InvalidArgument, "does not exist (create_if_missing is false)"));
        }
        std::fs::create_dir_all(&path)?;
        let wal_path = path.join("WAL");
        let mut data = BTreeMap::new();
        let mut good = 0u64;
        if wal_path.exists() {
            let mut all = vec![];
            File::open(&wal_path)?.read_to_end(&mut all)?;
            let mut b = all.as_slice();
            while let Some((len, crc, rec)) = (|| {
                let mut c = b;
                let len = take_u32(&mut c)?;
                let crc = take_u32(&mut c)?;
                Some((len, crc, take(&mut c, len)?))
            })() {
                if crc32fast::hash(rec) as usize != crc {
                    break;
                }
                let mut r = rec;
                while !r.is_empty() {
                    let tag = take(&mut r, 1).unwrap()[0];
                    let n = take_u32(&mut r).unwrap();
                    let k = take(&mut r, n).unwrap().to_vec();
                    if tag == 1 {
                        let n = take_u32(&mut r).unwrap();
                        data.insert(k, take(&mut r, n).unwrap().to_vec());
                    } else {
                        data.remove(&k);
                    }
                }
                good += 8 + len as u64;
                b = &b[8 + len..];
            }
        }
        let f = OpenOptions::new().create(true).append(true).read(true).open(&wal_path)?;
        f.set_len(good)?;
        Ok(TransactionDB {
            data: RwLock::new(data),
            wal: Mutex::new(f),
            locks: Mutex::default(),
            freed: Condvar::new(),
            next_tx: AtomicU64::new(1),
            path,
            _p: PhantomData,
        })
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction {
            db: self,
            id: self.next_tx.fetch_add(1, Ordering::SeqCst),
            state: Mutex::new(TxState { writes: Batch::new(), locked: vec![] }),
        }
    }

    fn apply(&self, b: Batch) -> Result<(), Error> {
        if b.is_empty() {
            return Ok(());
        }
        let mut rec = vec![];
        for (k, v) in &b {
            rec.push(v.is_some() as u8);
            put_bytes(&mut rec, k);
            if let Some(v) = v {
                put_bytes(&mut rec, v);
            }
        }
        let mut out = vec![];
        out.extend((rec.len() as u32).to_le_bytes());
        out.extend(crc32fast::hash(&rec).to_le_bytes());
        out.extend(rec);
        let mut wal = self.wal.lock().unwrap();
        wal.write_all(&out)?;
        let mut d = self.data.write().unwrap();
        for (k, v) in b {
            match v {
                Some(v) => d.insert(k, v),
                None => d.remove(&k),
            };
        }
        Ok(())
    }

    fn lock(&self, id: u64, key: &[u8]) -> Result<bool, Error> {
        let until = Instant::now() + Duration::from_millis(LOCK_TIMEOUT_MS.load(Ordering::Relaxed));
        let mut l = self.locks.lock().unwrap();
        loop {
            match l.owner.get(key) {
                None => {
                    l.owner.insert(key.to_vec(), id);
                    return Ok(true);
                }
                Some(o) if *o == id => return Ok(false),
                Some(_) => {}
            }
            let now = Instant::now();
            if now >= until {
                return Err(Error::new(ErrorKind::TimedOut, "Operation timed out: Timeout waiting to lock key"));
            }
            l = self.freed.wait_timeout(l, until - now).unwrap().0;
        }
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        hook::call("get", key.as_ref())?;
        Ok(self.data.read().unwrap().get(key.as_ref()).cloned())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        // a write outside of a transaction is a transaction of its own
        let tx = self.transaction();
        tx.put(key, value)?;
        tx.commit()
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        let tx = self.transaction();
        tx.delete(key)?;
        tx.commit()
    }
    /// instrumentation: everything that is committed
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.data.read().unwrap().clone()
    }
}

struct TxState {
    writes: Batch,
    locked: Vec<Vec<u8>>,
}

pub struct Transaction<'db, DB: Owner> {
    db: &'db DB,
    id: u64,
    state: Mutex<TxState>,
}

/// what a transaction needs of its database
pub trait Owner {
    fn o_lock(&self, id: u64, key: &[u8]) -> Result<bool, Error>;
    fn o_unlock(&self, keys: &[Vec<u8>]);
    fn o_get(&self, key: &[u8]) -> Option<Vec<u8>>;
    fn o_from(&self, key: &[u8]) -> BTreeMap<Vec<u8>, Vec<u8>>;
    fn o_apply(&self, b: BTreeMap<Vec<u8>, Option<Vec<u8>>>) -> Result<(), Error>;
}
impl<T> Owner for TransactionDB<T> {
    fn o_lock(&self, id: u64, key: &[u8]) -> Result<bool, Error> {
        self.lock(id, key)
    }
    fn o_unlock(&self, keys: &[Vec<u8>]) {
        let mut l = self.locks.lock().unwrap();
        for k in keys {
            l.owner.remove(k);
        }
        drop(l);
        self.freed.notify_all();
    }
    fn o_get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.data.read().unwrap().get(key).cloned()
    }
    fn o_from(&self, key: &[u8]) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.data.read().unwrap().range(key.to_vec()..).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    fn o_apply(&self, b: Batch) -> Result<(), Error> {
        self.apply(b)
    }
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);
pub struct DBIterator<'a> {
    err: Option<Error>,
    it: std::collections::btree_map::IntoIter<Vec<u8>, Vec<u8>>,
    _p: PhantomData<&'a ()>,
}
impl Iterator for DBIterator<'_> {
    type Item = Result<KVBytes, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if let Some(e) = self.err.take() {
            return Some(Err(e));
        }
        self.it.next().map(|(k, v)| Ok((k.into_boxed_slice(), v.into_boxed_slice())))
    }
}

impl<'db, DB: Owner> Transaction<'db, DB> {
    fn locked(&self, s: &mut TxState, key: &[u8]) -> Result<(), Error> {
        if self.db.o_lock(self.id, key)? {
            s.locked.push(key.to_vec());
        }
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        hook::call("get", key.as_ref())?;
        if let Some(v) = self.state.lock().unwrap().writes.get(key.as_ref()) {
            return Ok(v.clone());
        }
        Ok(self.db.o_get(key.as_ref()))
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, key: K, _exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        hook::call("get_for_update", key.as_ref())?;
        let mut s = self.state.lock().unwrap();
        self.locked(&mut s, key.as_ref())?;
        if let Some(v) = s.writes.get(key.as_ref()) {
            return Ok(v.clone());
        }
        Ok(self.db.o_get(key.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        hook::call("put", key.as_ref())?;
        let mut s = self.state.lock().unwrap();
        self.locked(&mut s, key.as_ref())?;
        s.writes.insert(key.as_ref().to_vec(), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        hook::call("delete", key.as_ref())?;
        let mut s = self.state.lock().unwrap();
        self.locked(&mut s, key.as_ref())?;
        s.writes.insert(key.as_ref().to_vec(), None);
        Ok(())
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator<'_> {
        let err = hook::call("iterate", prefix.as_ref()).err();
        let s = self.state.lock().unwrap();
        let mut m = self.db.o_from(prefix.as_ref());
        for (k, v) in s.writes.range(prefix.as_ref().to_vec()..) {
            match v {
                Some(v) => m.insert(k.clone(), v.clone()),
                None => m.remove(k),
            };
        }
        DBIterator { err, it: m.into_iter(), _p: PhantomData }
    }
    pub fn commit(self) -> Result<(), Error> {
        hook::call("commit", &[])?;
        let b = std::mem::take(&mut self.state.lock().unwrap().writes);
        self.db.o_apply(b)
        // locks are released by drop
    }
    pub fn rollback(&self) -> Result<(), Error> {
        let mut s = self.state.lock().unwrap();
        s.writes.clear();
        let l = std::mem::take(&mut s.locked);
        self.db.o_unlock(&l);
        Ok(())
    }
}
impl<DB: Owner> Drop for Transaction<'_, DB> {
    fn drop(&mut self) {
        let s = match self.state.get_mut() {
            Ok(s) => s,
            Err(e) => e.into_inner(),
        };
        let l = std::mem::take(&mut s.locked);
        if !l.is_empty() {
            self.db.o_unlock(&l);
        }
    }
}
