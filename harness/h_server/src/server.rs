//! The server as the program assembles it, driven in process: requests go to its router, and what
//! they left behind is read from the tables and the metadata.
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::Arc;

use arrow2::array::Array;
use arrow2::array::BooleanArray;
use arrow2::array::PrimitiveArray;
use arrow2::array::Utf8Array;
use arrow2::datatypes::DataType;
use axum::body::Body;
use axum::extract::ConnectInfo;
use axum::http::Request;
use axum::Router;
use common::config::Config;
use metadata::MetadataProvider;
use mon::guarded;
use rocksdb::TransactionDB;
use serde_json::Value as Json;
use storage::db::OptiDBImpl;
use storage::Value;
use tower_service::Service;

/// Addresses the geo database knows, with the country and city it names.
pub const PLACES: [(&str, &str, &str); 6] = [
    ("8.8.8.8", "United States", "Mountain View"),
    ("81.2.69.160", "United Kingdom", "London"),
    ("5.5.5.5", "Germany", ""),
    ("2001:db8::7", "Spain", "Madrid"),
    ("9.9.9.9", "", ""),
    ("7.7.7.7", "", "Saint-Élie"),
];

pub struct Server {
    pub kv: Arc<TransactionDB>,
    pub db: Arc<OptiDBImpl>,
    pub md: Arc<MetadataProvider>,
    pub router: Router,
    pub cfg: Config,
    pub dir: PathBuf,
}
#[derive(Debug, Clone)]
pub struct Resp {
    pub status: u16,
    pub json: Json,
    pub text: String,
    pub cookies: Vec<String>,
}
impl Resp {
    pub fn ok(&self) -> bool {
        self.status / 100 == 2
    }
}
pub fn base() -> PathBuf {
    std::env::temp_dir().join(format!("vs{}", std::process::id()))
}
fn scratch() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let d = base().join(format!("w{n}"));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn copy(from: &PathBuf, to: &PathBuf) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &t);
        } else if std::fs::copy(e.path(), &t).is_err() && e.path().exists() {
            panic!("harness: cannot copy {:?}", e.path());
        }
    }
}
pub fn config(dir: &PathBuf) -> Config {
    let mut cfg = Config::default();
    let t = |t: &mut common::config::Table| {
        t.levels = 7;
        t.merge_array_size = 10000;
        t.l1_max_size_bytes = 10 << 20;
        t.level_size_multiplier = 10;
        t.l0_max_parts = 4;
        t.max_log_length_bytes = 100 << 20;
        t.merge_array_page_size = 10000;
        t.merge_data_page_size_limit_bytes = 1 << 20;
        t.merge_max_l1_part_size_bytes = 1 << 20;
        t.merge_part_size_multiplier = 10;
        t.merge_row_group_values_limit = 1000;
        t.merge_chunk_size = 1 << 16;
        t.merge_max_page_size = 1 << 20;
    };
    t(&mut cfg.events_table);
    t(&mut cfg.group_table);
    cfg.data.path = dir.clone();
    cfg.data.ui_path = dir.join("ui");
    cfg.auth.access_token_duration = chrono::Duration::seconds(3600);
    cfg.auth.refresh_token_duration = chrono::Duration::seconds(7200);
    cfg.misc.session_cleaner_interval = chrono::Duration::milliseconds(40);
    cfg.misc.project_default_session_duration = chrono::Duration::seconds(7777);
    cfg
}
thread_local! {
    static RT: tokio::runtime::Runtime =
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
}
impl Server {
    pub fn new() -> Server {
        Self::open(scratch())
    }
    pub fn open(dir: PathBuf) -> Server {
        let cfg = config(&dir);
        let db = Arc::new(OptiDBImpl::open(dir.join("db"), storage::db::Options {}).unwrap());
        let kv = Arc::new(metadata::rocksdb::new(dir.join("md")).unwrap());
        let md = Arc::new(MetadataProvider::try_new(kv.clone(), db.clone()).unwrap());
        let (geo, ua) = (dir.join("geo"), dir.join("ua"));
        let lines: Vec<String> = PLACES.iter().map(|p| format!("{}\t{}\t{}", p.0, p.1, p.2)).collect();
        std::fs::write(&geo, lines.join("\n")).unwrap();
        std::fs::write(&ua, "").unwrap();
        cmd::init_settings(&md).unwrap_or_else(|e| panic!("init_settings: {e:?}"));
        cmd::init_storage(&db, &cfg).unwrap_or_else(|e| panic!("init_storage: {e:?}"));
        let router = cmd::init_ingester(&geo, &ua, &md, &db, Router::new()).unwrap_or_else(|e| panic!("init_ingester: {e:?}"));
        let router = cmd::init_platform(md.clone(), db.clone(), router, cfg.clone()).unwrap_or_else(|e| panic!("init_platform: {e:?}"));
        Server { kv, db, md, router, cfg, dir }
    }
    /// Stops the server and starts another on what it stored.
    pub fn restart(self) -> Server {
        let Server { kv, db, md, router, dir, .. } = self;
        drop(router);
        drop(md);
        drop(kv);
        assert!(Arc::into_inner(db).is_some(), "harness: the store is still in use");
        // the collector of the old store outlives it, unlike that of a program that has ended
        let to = scratch();
        copy(&dir, &to);
        let _ = std::fs::remove_dir_all(&dir);
        Self::open(to)
    }
    pub fn discard(self) {
        std::thread::spawn(move || {
            let dir = self.dir.clone();
            drop(self);
            let _ = std::fs::remove_dir_all(dir);
        });
    }
    pub fn call(&self, method: &str, path: &str, headers: &[(&str, &str)], body: &str) -> Result<Resp, String> {
        call(&self.router, method, path, headers, body)
    }
    pub fn token(&self, account: u64, org: u64) -> String {
        platform::auth::token::make_access_token(
            account,
            org,
            self.cfg.auth.access_token_duration,
            self.md.settings.load().unwrap().auth_access_token,
        )
        .unwrap()
    }
    /// A request of an account acting in an organisation.
    pub fn api(&self, account: u64, org: u64, method: &str, path: &str, body: &Json) -> Result<Resp, String> {
        let t = format!("Bearer {}", self.token(account, org));
        let body = if body.is_null() { String::new() } else { body.to_string() };
        self.call(method, path, &[("authorization", &t), ("content-type", "application/json")], &body)
    }
    /// Rows of a table: what is not null, by column.
    pub fn rows(&self, tbl: &str) -> Result<Vec<BTreeMap<String, Value>>, String> {
        guarded(|| rows(&self.db, tbl))?
    }
    pub fn admin(&self) -> u64 {
        if let Ok(a) = self.md.accounts.get_by_email("root@example.com") {
            return a.id;
        }
        self.account("root@example.com", Some(common::rbac::Role::Admin), vec![], vec![])
    }
    pub fn account(
        &self,
        email: &str,
        role: Option<common::rbac::Role>,
        orgs: Vec<(u64, common::rbac::OrganizationRole)>,
        projects: Vec<(u64, common::rbac::ProjectRole)>,
    ) -> u64 {
        let a = self
            .md
            .accounts
            .create(metadata::accounts::CreateAccountRequest {
                created_by: 1,
                password_hash: "none".to_string(),
                email: email.to_string(),
                name: Some(email.to_string()),
                force_update_password: false,
                force_update_email: false,
                role,
                organizations: Some(orgs),
                projects: Some(projects),
                teams: None,
            })
            .unwrap();
        a.id
    }
    pub fn org(&self, name: &str) -> u64 {
        let by = self.admin();
        self.md
            .organizations
            .create(metadata::organizations::CreateOrganizationRequest { created_by: by, name: name.to_string() })
            .unwrap()
            .id
    }
    /// Through the interface, as an administrator: id and token.
    pub fn project(&self, org: u64, name: &str, session: u64) -> (u64, String) {
        let r = self
            .api(
                self.admin(),
                org,
                "POST",
                "/api/v1/projects",
                &serde_json::json!({"name": name, "sessionDurationSeconds": session}),
            )
            .unwrap();
        assert!(r.status == 201, "harness: no project: {r:?}");
        (r.json["id"].as_u64().unwrap(), r.json["sdkToken"].as_str().unwrap().to_string())
    }
}
pub fn call(router: &Router, method: &str, path: &str, headers: &[(&str, &str)], body: &str) -> Result<Resp, String> {
    let mut req = Request::builder().method(method).uri(path);
    for (k, v) in headers {
        req = req.header(*k, *v);
    }
    let mut req = req.body(Body::from(body.to_string())).map_err(|e| format!("harness: {e}"))?;
    req.extensions_mut().insert(ConnectInfo(SocketAddr::from(([127, 0, 0, 1], 4321))));
    let mut router = router.clone();
    guarded(move || {
        RT.with(|rt| {
            rt.block_on(async move {
                let resp = match router.call(req).await {
                    Ok(r) => r,
                    Err(e) => match e {},
                };
                let status = resp.status().as_u16();
                let cookies =
                    resp.headers().get_all("set-cookie").iter().map(|v| v.to_str().unwrap_or("").to_string()).collect();
                let bytes = axum::body::to_bytes(resp.into_body(), 1 << 26).await.map_err(|e| e.to_string())?;
                let text = String::from_utf8_lossy(&bytes).to_string();
                let json = serde_json::from_str(&text).unwrap_or(Json::Null);
                Ok(Resp { status, json, text, cookies })
            })
        })
    })?
}
fn values(a: &dyn Array) -> Result<Vec<Value>, String> {
    fn prim<T: arrow2::types::NativeType>(a: &dyn Array, f: impl Fn(Option<T>) -> Value) -> Result<Vec<Value>, String> {
        let a = a
            .as_any()
            .downcast_ref::<PrimitiveArray<T>>()
            .ok_or_else(|| format!("array of type {:?} is not the primitive expected", a.data_type()))?;
        Ok(a.iter().map(f).collect())
    }
    Ok(match a.data_type() {
        DataType::Int8 => prim::<i8>(a, Value::Int8)?,
        DataType::Int16 => prim::<i16>(a, Value::Int16)?,
        DataType::Int32 => prim::<i32>(a, Value::Int32)?,
        DataType::Int64 => prim::<i64>(a, Value::Int64)?,
        DataType::Timestamp(..) => prim::<i64>(a, Value::Timestamp)?,
        DataType::Decimal(..) => prim::<i128>(a, Value::Decimal)?,
        DataType::Boolean => {
            a.as_any().downcast_ref::<BooleanArray>().ok_or("not a boolean array")?.iter().map(Value::Boolean).collect()
        }
        DataType::Utf8 => a
            .as_any()
            .downcast_ref::<Utf8Array<i32>>()
            .ok_or("not a string array")?
            .iter()
            .map(|v| Value::String(v.map(|s| s.to_string())))
            .collect(),
        t => return Err(format!("unexpected array type {t:?}")),
    })
}
fn is_null(v: &Value) -> bool {
    matches!(
        v,
        Value::Null
            | Value::Int8(None)
            | Value::Int16(None)
            | Value::Int32(None)
            | Value::Int64(None)
            | Value::Boolean(None)
            | Value::Decimal(None)
            | Value::String(None)
            | Value::Timestamp(None)
    )
}
fn rows(db: &Arc<OptiDBImpl>, tbl: &str) -> Result<Vec<BTreeMap<String, Value>>, String> {
    let schema = db.schema(tbl).map_err(|e| format!("{e:?}"))?;
    let names: Vec<String> = schema.fields.iter().map(|f| f.name.clone()).collect();
    let mut s = Box::pin(db.scan(tbl, (0..names.len()).collect()).map_err(|e| format!("{e:?}"))?);
    let waker = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut out = vec![];
    loop {
        match futures::Stream::poll_next(s.as_mut(), &mut cx) {
            std::task::Poll::Ready(None) => break,
            std::task::Poll::Ready(Some(c)) => {
                let c = c.map_err(|e| format!("{e:?}"))?;
                let cols = c.columns().iter().map(|a| values(a.as_ref())).collect::<Result<Vec<_>, _>>()?;
                if cols.len() != names.len() {
                    return Err(format!("{} columns of {}", cols.len(), names.len()));
                }
                let n = cols.first().map(|c| c.len()).unwrap_or(0);
                for i in 0..n {
                    let mut row = BTreeMap::new();
                    for (name, c) in names.iter().zip(&cols) {
                        if !is_null(&c[i]) && row.insert(name.clone(), c[i].clone()).is_some() {
                            return Err(format!("two columns {name} in table {tbl}"));
                        }
                    }
                    out.push(row);
                }
            }
            std::task::Poll::Pending => return Err("scan stream pending".into()),
        }
    }
    Ok(out)
}
