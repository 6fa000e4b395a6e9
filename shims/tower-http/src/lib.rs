//! Stand-ins for the layers of tower-http the servers put around their routes: they pass every
//! request on unchanged (CORS headers and request traces are not looked at), and no static
//! files are served.
pub mod cors {
    #[derive(Clone, Copy, Debug)]
    pub struct Any;
    #[derive(Clone, Debug, Default)]
    pub struct CorsLayer;
    impl CorsLayer {
        pub fn new() -> Self {
            CorsLayer
        }
        pub fn allow_methods<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_origin<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_headers<T>(self, _: T) -> Self {
            self
        }
    }
    impl<S> tower_layer::Layer<S> for CorsLayer {
        type Service = S;
        fn layer(&self, s: S) -> S {
            s
        }
    }
}
pub mod trace {
    #[derive(Clone, Debug)]
    pub struct TraceLayer;
    impl TraceLayer {
        pub fn new_for_http() -> Self {
            TraceLayer
        }
    }
}
pub mod services {
    use std::convert::Infallible;
    use std::future::ready;
    use std::future::Ready;
    use std::path::Path;
    use std::task::Context;
    use std::task::Poll;

    use axum::body::Body;
    use axum::http::Request;
    use axum::response::IntoResponse;
    use axum::response::Response;
    #[derive(Clone, Debug)]
    pub struct ServeFile;
    impl ServeFile {
        pub fn new<P: AsRef<Path>>(_: P) -> Self {
            ServeFile
        }
    }
    #[derive(Clone, Debug)]
    pub struct ServeDir;
    impl ServeDir {
        pub fn new<P: AsRef<Path>>(_: P) -> Self {
            ServeDir
        }
        pub fn not_found_service<S>(self, _: S) -> Self {
            self
        }
    }
    impl tower_service::Service<Request<Body>> for ServeDir {
        type Response = Response;
        type Error = Infallible;
        type Future = Ready<Result<Response, Infallible>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: Request<Body>) -> Self::Future {
            ready(Ok((axum::http::StatusCode::NOT_FOUND, "no such page").into_response()))
        }
    }
}
