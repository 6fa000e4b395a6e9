#![allow(unused_imports, dead_code)]
pub mod error {
    #[derive(Debug)]
    pub enum Error {
        Internal(String),
    }
    pub type Result<T> = std::result::Result<T, Error>;
    impl<E: std::error::Error> From<E> for Error {
        fn from(e: E) -> Self {
            Error::Internal(e.to_string())
        }
    }
}
include!(concat!(env!("OUT_DIR"), "/root.rs"));
