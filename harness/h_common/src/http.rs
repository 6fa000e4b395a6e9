//! C11 error answers and body decoding, C12 transparent middleware.
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::Mutex;

use axum::extract::FromRequest;
use axum::http::HeaderMap;
use axum::http::Method;
use axum::http::Request;
use axum::http::StatusCode;
use axum::response::IntoResponse;
use axum::response::Response;
use axum::Router;
use axum_core::body::Body;
use common::http::ApiError;
use common::http::Json;
use http_body_util::BodyExt;
use metrics_util::debugging::DebugValue;
use metrics_util::debugging::DebuggingRecorder;
use mon::*;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value;
use tower::ServiceExt;

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
async fn body_bytes(r: Response) -> Vec<u8> {
    r.into_body().collect().await.map(|b| b.to_bytes().to_vec()).unwrap_or_default()
}

#[derive(Debug, Serialize, Deserialize, PartialEq, Clone)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
struct Strict {
    first_name: String,
    age: u8,
    #[serde(default)]
    tags: Vec<String>,
    nested: Option<Nested>,
    mode: Mode,
}
#[derive(Debug, Serialize, Deserialize, PartialEq, Clone)]
struct Nested {
    x: f64,
    y: i64,
}
#[derive(Debug, Serialize, Deserialize, PartialEq, Clone)]
#[serde(rename_all = "camelCase")]
enum Mode {
    Plain,
    Sized { len: u32 },
}
#[derive(Debug, Serialize, Deserialize, PartialEq, Clone)]
struct Loose {
    id: u64,
    name: Option<String>,
    map: BTreeMap<String, i32>,
}

fn mutate(r: &mut Rng, s: &mut Vec<u8>) {
    if s.is_empty() {
        return;
    }
    for _ in 0..1 + r.below(3) {
        if s.is_empty() {
            return;
        }
        let i = r.below(s.len());
        match r.below(5) {
            0 => s[i] = r.next() as u8,
            1 => {
                s.remove(i);
            }
            2 => s.insert(i, *r.pick(b"{}[],:\"\\0ae-n \xff\xc3")),
            3 => s.truncate(i),
            _ => {
                let t = s.clone();
                s.extend_from_slice(&t[i..]);
            }
        }
    }
}

/// the field a decoding error is about, when the decoder names one
fn named_field(e: &str) -> Option<(String, String)> {
    for kind in ["missing", "unknown", "duplicate"] {
        let pat = format!("{kind} field `");
        if let Some(i) = e.find(&pat) {
            let rest = &e[i + pat.len()..];
            return rest.find('`').filter(|j| *j > 0 && !rest[..*j].contains('\n')).map(|j| (rest[..j].to_string(), kind.to_string()));
        }
    }
    None
}

fn judge_body<T: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Serialize>(
    m: &mut Mon, rtm: &tokio::runtime::Runtime, what: &str, ct: Option<&str>, body: Vec<u8>, ct_ok: bool,
) {
    let mut b = Request::builder().method("POST").uri("/x");
    if let Some(c) = ct {
        b = b.header("content-type", c);
    }
    let Ok(req) = b.body(Body::from(body.clone())) else { return };
    let show = || String::from_utf8_lossy(&body[..body.len().min(300)]).to_string();
    let res = guarded(|| rtm.block_on(async { Json::<T>::from_request(req, &()).await }));
    let want = serde_json::from_slice::<T>(&body);
    // the framework's decoder may stop after the first complete value: trailing bytes are not judged
    let prefix = T::deserialize(&mut serde_json::Deserializer::from_slice(&body)).ok();
    if want.is_err() && prefix.is_some() {
        m.count("bodies_with_trailing_bytes", 1);
        if let Err(p) = res {
            m.violation("body-panic", format!("{what} {:?}: {p}", show()), json!(null));
        }
        return;
    }
    let too_big = body.len() > 2 * 1024 * 1024;
    let good = ct_ok && want.is_ok() && !too_big;
    m.observed((what, ct, &body), !good || !body.is_empty());
    m.count(if good { "bodies_good" } else { "bodies_bad" }, 1);
    match res {
        Err(p) => m.violation("body-panic", format!("{what} content-type {ct:?} body {:?}: {p}", show()), json!(null)),
        Ok(Ok(Json(v))) => {
            m.check(good, "body-accepted", || format!("{what} {ct:?} malformed body {:?} accepted as {v:?}", show()));
            if let Ok(w) = &want {
                let same = &v == w || serde_json::to_string(&v).ok() == serde_json::to_string(w).ok();
                m.check(same, "body-value", || format!("{:?} decoded as {v:?}", show()));
            }
        }
        Ok(Err(e)) => {
            m.check(!good, "body-refused", || format!("{what} {ct:?} well-formed body {:?} refused: {e:?}", show()));
            m.check(e.status.is_client_error(), "body-status", || format!("{what} {ct:?} body {:?} answered {}", show(), e.status));
            if ct_ok && !too_big {
                if let Err(se) = &want {
                    if let (Some((f, k)), true) = (named_field(&se.to_string()), se.is_data()) {
                        m.count("fields_named", 1);
                        let ok = e.fields.get(&f) == Some(&k) && e.fields.len() == 1;
                        m.check(ok, "body-field", || format!("body {:?} ({se}) answered with fields {:?}, expected {f}: {k}", show(), e.fields));
                    }
                }
            }
            m.check(e.message.as_ref().map(|s| !s.is_empty()).unwrap_or(false), "body-message", || format!("{:?}: no message", show()));
            judge_error(m, rtm, e);
        }
    }
}

fn judge_error(m: &mut Mon, rtm: &tokio::runtime::Runtime, e: ApiError) {
    let want = e.clone();
    let r = guarded(|| {
        rtm.block_on(async move {
            let r = e.into_response();
            let st = r.status();
            let ct = r.headers().get("content-type").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
            (st, ct, body_bytes(r).await)
        })
    });
    m.count("error_answers", 1);
    match r {
        Err(p) => m.violation("error-panic", format!("{want:?}: {p}"), json!(null)),
        Ok((st, ct, b)) => {
            let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
            m.check(st == want.status, "error-status", || format!("{want:?} answered {st}"));
            m.check(ct.starts_with("application/json"), "error-type", || format!("{want:?} answered as {ct}"));
            let mut o = serde_json::Map::new();
            o.insert("status".into(), json!(want.status.as_u16()));
            if let Some(c) = want.code {
                o.insert("code".into(), json!(c));
            }
            if let Some(c) = &want.message {
                o.insert("message".into(), json!(c));
            }
            if !want.fields.is_empty() {
                o.insert("fields".into(), json!(want.fields));
            }
            let exp = json!({ "error": o });
            m.check(v == exp, "error-body", || format!("{want:?} has body {v}, expected {exp}"));
        }
    }
}

pub fn c11(m: &mut Mon) {
    m.rule("API errors built through every constructor and builder chain; request bodies for two typed requests: well-formed, with each field missing, unknown, duplicated, mistyped or null, byte-mutated, empty, non-UTF-8, oversized, deeply nested, under right and wrong content types. Oracle: the JSON library applied to the same bytes. Non-trivial: all but empty well-formed; distinct by (type, content type, body).");
    let rtm = rt();
    let mut rng = m.rng.fork();
    // constructors
    let ctors: [(fn(String) -> ApiError, u16); 7] = [
        (|s| ApiError::bad_request(s), 400),
        (|s| ApiError::unauthorized(s), 401),
        (|s| ApiError::forbidden(s), 403),
        (|s| ApiError::not_found(s), 404),
        (|s| ApiError::conflict(s), 409),
        (|s| ApiError::internal(s), 500),
        (|s| ApiError::unimplemented(s), 501),
    ];
    for _ in 0..m.n(1500, 100_000) {
        let msg = rng.string();
        let (c, code) = rng.pick(&ctors);
        let mut e = c(msg.clone());
        m.check(e.status.as_u16() == *code && e.message.as_ref() == Some(&msg) && e.fields.is_empty() && e.code.is_none(), "constructor", || format!("{code} {msg:?}: {e:?}"));
        m.observed(("ctor", code, &msg), true);
        let mut want = e.clone();
        for _ in 0..rng.below(4) {
            match rng.below(4) {
                0 => {
                    let f: BTreeMap<String, String> = (0..rng.below(3)).map(|_| (rng.string(), rng.string())).collect();
                    e = e.with_fields(f.clone());
                    want.fields = f;
                }
                1 => {
                    let s = rng.string();
                    e = e.with_message(s.clone());
                    want.message = Some(s);
                }
                2 => {
                    let s = rng.string();
                    e = e.append_inner_message(s.clone());
                    want.message = want.message.map(|x| format!("{x}: {s}"));
                }
                _ => {
                    let c = if rng.bool() { Some(rng.next()) } else { None };
                    e.code = c;
                    want.code = c;
                }
            }
        }
        let same = e.status == want.status && e.code == want.code && e.message == want.message && e.fields == want.fields;
        m.check(same, "builder", || format!("built {e:?}, expected {want:?}"));
        m.check(e.to_string() == want.message.clone().unwrap_or_default(), "display", || format!("{e:?} shows {e}"));
        judge_error(m, &rtm, e);
    }
    for s in [200u16, 201, 204, 301, 400, 404, 418, 429, 500, 503] {
        judge_error(m, &rtm, ApiError::new(StatusCode::from_u16(s).unwrap()));
    }
    // bodies
    let strict = |r: &mut Rng| Strict {
        first_name: r.string(),
        age: r.next() as u8,
        tags: (0..r.below(3)).map(|_| r.string()).collect(),
        nested: if r.bool() { None } else { Some(Nested { x: r.range(-1000, 1000) as f64 / 8.0, y: r.i64_edge() }) },
        mode: if r.bool() { Mode::Plain } else { Mode::Sized { len: r.next() as u32 } },
    };
    let loose = |r: &mut Rng| Loose { id: r.next(), name: if r.bool() { None } else { Some(r.string()) }, map: (0..r.below(3)).map(|_| (r.string(), r.next() as i32)).collect() };
    let good_ct = ["application/json", "application/json; charset=utf-8", "application/vnd.api+json", "Application/JSON"];
    let bad_ct = ["text/plain", "", "application/xml", "json", "application/x-www-form-urlencoded"];
    for i in 0..m.n(6000, 400_000) {
        if i % 256 == 0 && !m.within(30, 400) {
            break;
        }
        let is_strict = rng.bool();
        let mut v = if is_strict { serde_json::to_value(strict(&mut rng)).unwrap() } else { serde_json::to_value(loose(&mut rng)).unwrap() };
        let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
        let mut body: Option<Vec<u8>> = None;
        match rng.below(12) {
            0..=2 => {}
            3 => {
                v.as_object_mut().unwrap().remove(rng.pick(&keys).as_str());
            }
            4 => {
                v.as_object_mut().unwrap().insert(rng.ident(), json!(1));
            }
            5 => {
                let k = rng.pick(&keys).clone();
                v[k.as_str()] = rng.pick(&[json!(null), json!(-1), json!("x"), json!([1]), json!({"q": 1}), json!(1e300), json!(true), json!({"unknown": {"len": 1}})]).clone();
            }
            6 | 7 => {
                let mut b = v.to_string().into_bytes();
                mutate(&mut rng, &mut b);
                body = Some(b);
            }
            8 => body = Some(rng.pick(&[&b""[..], b" ", b"null", b"[]", b"{", b"\xff\xfe", b"\"", b"{}", b"0", b"{\"firstName\":\"\\ud800\"}"]).to_vec()),
            9 => {
                let k = rng.pick(&keys).clone();
                let t = v.to_string();
                let dup = format!("{},{}:{}}}", &t[..t.len() - 1], serde_json::to_string(&k).unwrap(), v[k.as_str()]);
                body = Some(dup.into_bytes());
            }
            10 => {
                let d = 1 + rng.below(400);
                body = Some(format!("{}{}", "[".repeat(d), "]".repeat(d)).into_bytes());
            }
            _ => body = Some(serde_json::to_vec_pretty(&v).unwrap()),
        }
        let body = body.unwrap_or_else(|| v.to_string().into_bytes());
        let (ct, ok): (Option<&str>, bool) = match rng.below(8) {
            0 => (None, false),
            1 => (Some(*rng.pick(&bad_ct)), false),
            _ => (Some(*rng.pick(&good_ct)), true),
        };
        m.sample(|| json!({"content_type": ct, "body": String::from_utf8_lossy(&body)}));
        if is_strict {
            judge_body::<Strict>(m, &rtm, "strict", ct, body, ok);
        } else {
            judge_body::<Loose>(m, &rtm, "loose", ct, body, ok);
        }
    }
    let big = format!("{{\"id\":1,\"name\":\"{}\",\"map\":{{}}}}", "x".repeat(2 * 1024 * 1024 + 10));
    judge_body::<Loose>(m, &rtm, "oversized", Some("application/json"), big.into_bytes(), true);
    // answers
    for _ in 0..m.n(300, 20_000) {
        let v = strict(&mut rng);
        let w = serde_json::to_value(&v).unwrap();
        let (st, b) = rtm.block_on(async {
            let r = Json(v).into_response();
            (r.status(), body_bytes(r).await)
        });
        m.count("json_answers", 1);
        m.check(st == StatusCode::OK && serde_json::from_slice::<Value>(&b).ok() == Some(w.clone()), "answer", || format!("{w} answered {st} {:?}", String::from_utf8_lossy(&b)));
    }
    // content length
    for (h, w) in [("0", Some(0)), ("17", Some(17)), ("18446744073709551615", Some(u64::MAX)), ("18446744073709551616", None), ("-1", None), ("x", None), ("", None), ("1.5", None)] {
        let mut hm = HeaderMap::new();
        hm.insert("content-length", h.parse().unwrap());
        let g = guarded(|| common::http::content_length(&hm));
        m.check(g == Ok(w), "content-length", || format!("{h:?} -> {g:?}"));
    }
    m.check(common::http::content_length(&HeaderMap::new()).is_none(), "content-length", || "absent".into());
    m.require("fields_named", 100);
    m.require("bodies_good", 500);
    m.require("bodies_bad", 500);
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    method: String,
    uri: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
}
fn hdrs(h: &HeaderMap) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = h.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
    v.sort();
    v
}

/// A subscriber that formats every event, so that the logging code really runs.
struct Sink(Arc<Mutex<u64>>);
struct Fmt(usize);
impl tracing::field::Visit for Fmt {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0 += format!("{v:?}").len();
    }
}
impl tracing::Subscriber for Sink {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fmt(0);
        e.record(&mut f);
        *self.0.lock().unwrap() += 1;
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

pub fn c12(m: &mut Mon) {
    m.rule("Sequences of random requests (methods, paths, repeated headers, text, binary, chunked and empty bodies, answers with various statuses) through a router with the logging and the metrics middleware, with all logging enabled, compared with what the handler and the client must see; metrics read from a recording registry. Non-trivial: a request with a body or a repeated header; distinct by request.");
    let logged = Arc::new(Mutex::new(0u64));
    let _ = tracing::subscriber::set_global_default(Sink(logged.clone()));
    let mut rng = m.rng.fork();
    let rtm = rt();
    let rounds = m.n(60, 3000);
    for round in 0..rounds {
        if !m.within(30, 400) {
            break;
        }
        let rec = DebuggingRecorder::new();
        let snap = rec.snapshotter();
        let seen: Arc<Mutex<Vec<Seen>>> = Arc::new(Mutex::new(vec![]));
        let s2 = seen.clone();
        // the handler answers with what the request's own headers ask for
        let handler = move |req: axum::extract::Request| {
            let s2 = s2.clone();
            async move {
                let (p, b) = req.into_parts();
                let body = b.collect().await.map(|b| b.to_bytes().to_vec()).unwrap_or_else(|_| b"<unreadable>".to_vec());
                s2.lock().unwrap().push(Seen { method: p.method.to_string(), uri: p.uri.to_string(), headers: hdrs(&p.headers), body: body.clone() });
                let st: u16 = p.headers.get("x-want").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(200);
                let mut r = Response::new(Body::from(if st == 204 { vec![] } else { body.into_iter().rev().collect::<Vec<u8>>() }));
                *r.status_mut() = StatusCode::from_u16(st).unwrap();
                r.headers_mut().append("x-a", "1".parse().unwrap());
                r.headers_mut().append("x-a", "2".parse().unwrap());
                r
            }
        };
        let mode = round % 3;
        let mut app = Router::new().fallback(handler);
        if mode != 1 {
            app = app.layer(axum::middleware::from_fn(common::http::print_request_response));
        }
        if mode != 2 {
            app = app.layer(axum::middleware::from_fn(common::http::measure_request_response));
        }
        let mut want_counts: HashMap<(String, String), u64> = HashMap::new();
        let mut total = 0u64;
        let n = 1 + rng.below(25);
        metrics::with_local_recorder(&rec, || {
            for _ in 0..n {
                let method = rng.pick(&[Method::GET, Method::POST, Method::PUT, Method::DELETE, Method::PATCH, Method::OPTIONS, Method::HEAD]).clone();
                let path = rng.pick(&["/", "/a", "/a/b", "/a?x=1", "/api/v1/x%20y", "/%F0%9F%99%82", "/a//b", "/c?y=%00&z"]).to_string();
                let body: Vec<u8> = match rng.below(6) {
                    0 => vec![],
                    1 => rng.string().into_bytes(),
                    2 => (0..rng.below(300)).map(|_| rng.next() as u8).collect(),
                    3 => vec![0xff, 0xfe, 0, 1],
                    4 => b"{\"a\": 1}".to_vec(),
                    _ => vec![b'x'; rng.below(100_000)],
                };
                let st = *rng.pick(&[200u16, 200, 201, 204, 302, 400, 401, 404, 409, 500, 503]);
                let mut b = Request::builder().method(method.clone()).uri(&path).header("x-want", st.to_string());
                let nh = rng.below(4);
                for _ in 0..nh {
                    b = b.header(*rng.pick(&["x-h", "x-h", "cookie", "authorization"]), rng.ident());
                }
                if rng.bool() {
                    b = b.header("content-type", "application/octet-stream");
                }
                let chunked = rng.chance(1, 4);
                let rb = if chunked {
                    let mut chunks: Vec<Vec<u8>> = body.chunks(7.max(body.len() / 3 + 1)).map(|c| c.to_vec()).collect();
                    chunks.reverse();
                    Body::new(Chunks(chunks))
                } else {
                    Body::from(body.clone())
                };
                let req = b.body(rb).unwrap();
                let want = Seen { method: method.to_string(), uri: path.clone(), headers: hdrs(req.headers()), body: body.clone() };
                let pth = req.uri().path().to_string();
                m.observed((&want.method, &want.uri, &want.headers.len(), &want.body), !body.is_empty() || nh > 1);
                seen.lock().unwrap().clear();
                let app = app.clone();
                let r = guarded(|| rtm.block_on(async move {
                    let r = app.oneshot(req).await.unwrap();
                    let st = r.status().as_u16();
                    let h = hdrs(r.headers());
                    (st, h, body_bytes(r).await)
                }));
                m.count("requests", 1);
                match r {
                    Err(p) => m.violation("middleware-panic", format!("{want:?}: {p}"), json!(null)),
                    Ok((gs, gh, gb)) => {
                        let got = seen.lock().unwrap().clone();
                        m.check(got.len() == 1, "handled-once", || format!("{} {} reached the handler {} times", want.method, want.uri, got.len()));
                        if let Some(g) = got.first() {
                            m.check(*g == want, "request-altered", || format!("sent {} {} {:?} {} bytes, handler saw {} {} {:?} {} bytes", want.method, want.uri, want.headers, want.body.len(), g.method, g.uri, g.headers, g.body.len()));
                        }
                        let exp: Vec<u8> = if st == 204 { vec![] } else { body.iter().rev().cloned().collect() };
                        m.check(gs == st, "status-altered", || format!("handler answered {st}, client saw {gs}"));
                        m.check(gb == exp, "answer-altered", || format!("{method} {path}: handler answered {} bytes, client saw {}", exp.len(), gb.len()));
                        let xa: Vec<_> = gh.iter().filter(|h| h.0 == "x-a").map(|h| h.1.clone()).collect();
                        m.check(xa == vec![b"1".to_vec(), b"2".to_vec()], "answer-headers", || format!("{gh:?}"));
                        if mode != 2 && method != Method::OPTIONS {
                            *want_counts.entry((pth, st.to_string())).or_insert(0) += 1;
                            total += 1;
                        }
                    }
                }
                m.sample(|| json!({"method": want.method, "uri": want.uri, "body_len": want.body.len(), "status": st, "chunked": chunked}));
            }
        });
        let mut got: HashMap<(String, String), u64> = HashMap::new();
        let mut hist: HashMap<(String, String), u64> = HashMap::new();
        for (k, _, _, v) in snap.snapshot().into_vec() {
            let key = k.key();
            let lab = |n: &str| key.labels().find(|l| l.key() == n).map(|l| l.value().to_string()).unwrap_or_default();
            let id = (lab("path"), lab("status"));
            match v {
                DebugValue::Counter(c) if key.name() == common::types::METRIC_HTTP_REQUESTS_TOTAL => *got.entry(id).or_insert(0) += c,
                DebugValue::Histogram(h) if key.name() == common::types::METRIC_HTTP_REQUEST_TIME_SECONDS => {
                    m.check(h.iter().all(|x| x.into_inner() >= 0.0 && x.into_inner().is_finite()), "time-value", || format!("{h:?}"));
                    *hist.entry(id).or_insert(0) += h.len() as u64
                }
                _ => {}
            }
        }
        m.count("counted", total);
        m.check(got == want_counts, "count", || format!("counted {got:?}, expected {want_counts:?}"));
        m.check(hist == want_counts, "timed", || format!("timed {hist:?}, expected {want_counts:?}"));
    }
    let l = *logged.lock().unwrap();
    m.count("log_events", l);
    m.require("requests", 200);
    m.require("counted", 100);
    m.require("log_events", 100);
}

struct Chunks(Vec<Vec<u8>>);
impl axum::body::HttpBody for Chunks {
    type Data = bytes::Bytes;
    type Error = std::io::Error;
    fn poll_frame(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Result<http_body::Frame<bytes::Bytes>, Self::Error>>> {
        std::task::Poll::Ready(self.0.pop().map(|c| Ok(http_body::Frame::data(bytes::Bytes::from(c)))))
    }
}
