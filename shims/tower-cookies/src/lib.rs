//! Stand-in for tower-cookies: reads the `Cookie` header of a request and appends a
//! `Set-Cookie` header to the response for every cookie added.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::Mutex;
use std::task::Context;
use std::task::Poll;

use axum::extract::FromRequestParts;
use axum::http::header::COOKIE;
use axum::http::header::SET_COOKIE;
use axum::http::request::Parts;
use axum::http::HeaderValue;
use axum::http::Request;
use axum::http::StatusCode;
use axum::response::Response;
use time::OffsetDateTime;

#[derive(Clone, Debug)]
pub struct Cookie<'c> {
    name: String,
    value: String,
    expires: Option<OffsetDateTime>,
    http_only: bool,
    _c: std::marker::PhantomData<&'c ()>,
}
pub struct CookieBuilder(Cookie<'static>);
impl CookieBuilder {
    pub fn expires(mut self, t: OffsetDateTime) -> Self {
        self.0.expires = Some(t);
        self
    }
    pub fn http_only(mut self, v: bool) -> Self {
        self.0.http_only = v;
        self
    }
    pub fn build(self) -> Cookie<'static> {
        self.0
    }
}
impl Cookie<'_> {
    pub fn build<N: Into<String>, V: Into<String>>(nv: (N, V)) -> CookieBuilder {
        CookieBuilder(Cookie { name: nv.0.into(), value: nv.1.into(), expires: None, http_only: false, _c: Default::default() })
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn value(&self) -> &str {
        &self.value
    }
}
#[derive(Clone, Debug, Default)]
struct Jar {
    sent: Vec<(String, String)>,
    added: Vec<Cookie<'static>>,
}
#[derive(Clone, Debug, Default)]
pub struct Cookies(Arc<Mutex<Jar>>);
impl Cookies {
    pub fn add(&self, c: Cookie<'static>) {
        self.0.lock().unwrap().added.push(c);
    }
    pub fn get(&self, name: &str) -> Option<Cookie<'static>> {
        let j = self.0.lock().unwrap();
        if let Some(c) = j.added.iter().rev().find(|c| c.name == name) {
            return Some(c.clone());
        }
        j.sent.iter().find(|c| c.0 == name).map(|c| Cookie::build((c.0.clone(), c.1.clone())).build())
    }
}
#[async_trait::async_trait]
impl<S: Send + Sync> FromRequestParts<S> for Cookies {
    type Rejection = (StatusCode, &'static str);
    async fn from_request_parts(p: &mut Parts, _: &S) -> Result<Self, Self::Rejection> {
        p.extensions.get::<Cookies>().cloned().ok_or((StatusCode::INTERNAL_SERVER_ERROR, "no cookie manager"))
    }
}
#[derive(Clone, Debug, Default)]
pub struct CookieManagerLayer;
impl CookieManagerLayer {
    pub fn new() -> Self {
        CookieManagerLayer
    }
}
impl<S> tower_layer::Layer<S> for CookieManagerLayer {
    type Service = CookieManager<S>;
    fn layer(&self, inner: S) -> CookieManager<S> {
        CookieManager { inner }
    }
}
#[derive(Clone, Debug)]
pub struct CookieManager<S> {
    inner: S,
}
impl<S, B> tower_service::Service<Request<B>> for CookieManager<S>
where
    S: tower_service::Service<Request<B>, Response = Response>,
    S::Future: Send + 'static,
    S::Error: 'static,
{
    type Response = Response;
    type Error = S::Error;
    type Future = Pin<Box<dyn Future<Output = Result<Response, S::Error>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.inner.poll_ready(cx)
    }
    fn call(&mut self, mut req: Request<B>) -> Self::Future {
        let mut sent = vec![];
        for h in req.headers().get_all(COOKIE) {
            for c in h.to_str().unwrap_or("").split(';') {
                if let Some((n, v)) = c.trim().split_once('=') {
                    sent.push((n.to_string(), v.to_string()));
                }
            }
        }
        let jar = Cookies(Arc::new(Mutex::new(Jar { sent, added: vec![] })));
        req.extensions_mut().insert(jar.clone());
        let f = self.inner.call(req);
        Box::pin(async move {
            let mut r = f.await?;
            for c in &jar.0.lock().unwrap().added {
                let mut s = format!("{}={}", c.name, c.value);
                if c.http_only {
                    s.push_str("; HttpOnly");
                }
                if let Some(t) = c.expires {
                    s.push_str(&format!("; Expires=@{}", t.unix_timestamp()));
                }
                if let Ok(v) = HeaderValue::from_str(&s) {
                    r.headers_mut().append(SET_COOKIE, v);
                }
            }
            Ok(r)
        })
    }
}
