//! A metadata store and an event store in a scratch directory.

use std::sync::Arc;

use common::group_col;
use common::types::TABLE_EVENTS;
use common::GROUPS_COUNT;
use metadata::teams::Teams;
use metadata::MetadataProvider;
use rocksdb::TransactionDB;
use storage::db::OptiDBImpl;
use storage::db::Options;
use storage::table::Options as TableOptions;

pub struct Env {
    dir: tempfile::TempDir,
    pub kv: Arc<TransactionDB>,
    pub opti: Arc<OptiDBImpl>,
    pub md: Arc<MetadataProvider>,
    pub teams: Teams,
}

impl Env {
    pub fn new() -> Env {
        let dir = tempfile::Builder::new().prefix("vmd").tempdir().unwrap();
        let kv = Arc::new(metadata::rocksdb::new(dir.path().join("md")).unwrap());
        let opti = Arc::new(OptiDBImpl::open(dir.path().join("db"), Options {}).unwrap());
        opti.create_table(TABLE_EVENTS.to_string(), TableOptions::test(false)).unwrap();
        for g in 0..GROUPS_COUNT {
            opti.create_table(group_col(g), TableOptions::test(true)).unwrap();
        }
        let md = Arc::new(MetadataProvider::try_new(kv.clone(), opti.clone()).unwrap());
        let teams = Teams::new(kv.clone());
        Env { dir, kv, opti, md, teams }
    }
    /// close and open again what is on disk
    /// (closing the event store takes up to a second, so it is not always part of it)
    pub fn reopen(self, with_events: bool) -> Env {
        let Env { dir, kv, opti, md, teams } = self;
        drop(teams);
        drop(md);
        assert!(Arc::into_inner(kv).is_some(), "harness: store still in use");
        let kv = Arc::new(metadata::rocksdb::new(dir.path().join("md")).unwrap());
        let opti = if with_events {
            assert!(Arc::into_inner(opti).is_some(), "harness: store still in use");
            Arc::new(OptiDBImpl::open(dir.path().join("db"), Options {}).unwrap())
        } else {
            opti
        };
        let md = Arc::new(MetadataProvider::try_new(kv.clone(), opti.clone()).unwrap());
        let teams = Teams::new(kv.clone());
        Env { dir, kv, opti, md, teams }
    }
    pub fn discard(self) {
        std::thread::spawn(move || drop(self));
    }
}
