mod world {
    use std::sync::Arc;
    use common::group_col;
    use common::types::*;
    use common::GROUPS_COUNT;
    use metadata::properties::{DictionaryType, Type};
    use metadata::util::CreatePropertyMainRequest;
    use metadata::MetadataProvider;
    use storage::db::OptiDBImpl;
    use storage::{NamedValue, Value};

    pub struct World {
        pub md: Arc<MetadataProvider>,
        pub db: Arc<OptiDBImpl>,
    }
    impl World {
        pub fn new() -> World {
            let dir = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
            let db = Arc::new(OptiDBImpl::open(dir.join("db"), storage::db::Options {}).unwrap());
            let store = Arc::new(metadata::rocksdb::new(dir.join("md")).unwrap());
            for t in std::iter::once(TABLE_EVENTS.to_string()).chain((0..GROUPS_COUNT).map(group_col)) {
                let mut o = storage::table::Options::test(t != TABLE_EVENTS);
                o.index_cols = 2;
                db.create_table(t, o).unwrap();
            }
            let md = Arc::new(MetadataProvider::try_new(store, db.clone()).unwrap());
            World { md, db }
        }
        pub fn prop(&self, proj: u64, name: &str, typ: Type, data_type: DType, dict: Option<DictionaryType>, is_system: bool) -> metadata::properties::Property {
            metadata::util::create_property(&self.md, proj, CreatePropertyMainRequest {
                name: name.to_string(), display_name: None, typ, data_type, nullable: true, hidden: false, dict, is_system,
            }).unwrap()
        }
        /// the properties every project has
        pub fn project(&self, p: u64) {
            let d = Some(DictionaryType::Int64);
            self.prop(p, COLUMN_PROJECT_ID, Type::Event, DType::String, d.clone(), true);
            for g in 0..GROUPS_COUNT {
                self.prop(p, &group_col(g), Type::Event, DType::String, d.clone(), true);
            }
            self.prop(p, COLUMN_CREATED_AT, Type::Event, DType::Timestamp, None, true);
            self.prop(p, COLUMN_EVENT_ID, Type::Event, DType::Int64, None, true);
            self.prop(p, COLUMN_EVENT, Type::Event, DType::String, d.clone(), true);
            self.md.dictionaries.create_key(p, TABLE_EVENTS, COLUMN_PROJECT_ID, p, &format!("project {p}")).unwrap();
            for g in 0..GROUPS_COUNT {
                self.prop(p, GROUP_COLUMN_PROJECT_ID, Type::Group(g), DType::String, d.clone(), true);
                self.prop(p, GROUP_COLUMN_ID, Type::Group(g), DType::String, d.clone(), true);
                self.prop(p, GROUP_COLUMN_VERSION, Type::Group(g), DType::Int64, None, true);
                self.prop(p, GROUP_COLUMN_CREATED_AT, Type::Group(g), DType::Timestamp, None, true);
                self.md.dictionaries.create_key(p, &group_col(g), GROUP_COLUMN_PROJECT_ID, p, &format!("project {p}")).unwrap();
            }
        }
        pub fn event_type(&self, p: u64, name: &str) -> i64 {
            let e = metadata::util::create_event(&self.md, p, name.to_string()).unwrap().id;
            self.md.dictionaries.create_key(p, TABLE_EVENTS, COLUMN_EVENT, e, name).unwrap();
            e as i64
        }
        pub fn event(&self, p: u64, user: i64, ts: i64, id: i64, event: i64, more: Vec<(String, Value)>) {
            if self.md.dictionaries.get_value(p, TABLE_EVENTS, &group_col(0), user as u64).is_err() {
                self.md.dictionaries.create_key(p, TABLE_EVENTS, &group_col(0), user as u64, &format!("user {user}")).unwrap();
            }
            let mut v = vec![
                NamedValue::new(COLUMN_PROJECT_ID.to_string(), Value::Int64(Some(p as i64))),
                NamedValue::new(group_col(0), Value::Int64(Some(user))),
                NamedValue::new(COLUMN_CREATED_AT.to_string(), Value::Timestamp(Some(ts))),
                NamedValue::new(COLUMN_EVENT_ID.to_string(), Value::Int64(Some(id))),
                NamedValue::new(COLUMN_EVENT.to_string(), Value::Int64(Some(event))),
            ];
            v.extend(more.into_iter().map(|(n, x)| NamedValue::new(n, x)));
            self.db.insert(TABLE_EVENTS, v).unwrap();
        }
        pub fn ctx(&self, p: u64, now: i64) -> query::context::Context {
            query::context::Context { project_id: p, cur_time: chrono::DateTime::from_timestamp_millis(now).unwrap(), format: query::context::Format::Regular }
        }
        pub fn block<T>(&self, f: impl std::future::Future<Output = T>) -> T {
            tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(f)
        }
    }
}
fn rows_of(t: &query::ColumnarDataTable) -> Vec<String> {
    let n = t.columns.first().map(|c| c.data.len()).unwrap_or(0);
    (0..n)
        .map(|i| t.columns.iter().map(|c| if c.data.is_null(i) { "-".into() } else { arrow::util::display::array_value_to_string(&c.data, i).unwrap() }).collect::<Vec<_>>().join(","))
        .collect()
}
