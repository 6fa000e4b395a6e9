//! Stand-in for the typed `Authorization: Bearer` header of axum-extra.
use axum::http::header::AUTHORIZATION;
use axum::http::request::Parts;
use axum::http::StatusCode;
pub mod headers {
    pub struct Authorization<C>(pub C);
    pub mod authorization {
        #[derive(Clone, Debug)]
        pub struct Bearer(pub(crate) String);
        impl Bearer {
            pub fn token(&self) -> &str {
                &self.0
            }
        }
    }
}
use headers::authorization::Bearer;
use headers::Authorization;
pub struct TypedHeader<T>(pub T);
#[async_trait::async_trait]
impl<S: Send + Sync> axum::extract::FromRequestParts<S> for TypedHeader<Authorization<Bearer>> {
    type Rejection = (StatusCode, &'static str);
    async fn from_request_parts(p: &mut Parts, _: &S) -> Result<Self, Self::Rejection> {
        let mut all = p.headers.get_all(AUTHORIZATION).iter();
        let bad = (StatusCode::BAD_REQUEST, "invalid HTTP header (authorization)");
        let (Some(v), None) = (all.next(), all.next()) else { return Err(bad) };
        let v = v.to_str().map_err(|_| bad)?;
        match v.split_once(' ') {
            Some((k, t)) if k.eq_ignore_ascii_case("bearer") => Ok(TypedHeader(Authorization(Bearer(t.trim_start().to_string())))),
            _ => Err(bad),
        }
    }
}
