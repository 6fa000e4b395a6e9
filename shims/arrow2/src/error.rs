use std::fmt;

#[derive(Debug)]
pub enum Error {
    NotYetImplemented(String),
    External(String, Box<dyn std::error::Error + Send + Sync>),
    Io(std::io::Error),
    InvalidArgumentError(String),
    ExternalFormat(String),
    Overflow,
    OutOfSpec(String),
}

impl Error {
    pub fn from_external_error(error: impl std::error::Error + Send + Sync + 'static) -> Self {
        Self::External("".to_string(), Box::new(error))
    }
    pub fn oos<A: Into<String>>(msg: A) -> Self {
        Self::OutOfSpec(msg.into())
    }
    pub fn nyi<A: Into<String>>(msg: A) -> Self {
        Self::NotYetImplemented(msg.into())
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::NotYetImplemented(s) => write!(f, "Not yet implemented: {s}"),
            Error::External(m, s) => write!(f, "External error{m}: {s}"),
            Error::Io(d) => write!(f, "Io error: {d}"),
            Error::InvalidArgumentError(d) => write!(f, "Invalid argument error: {d}"),
            Error::ExternalFormat(d) => write!(f, "External format error: {d}"),
            Error::Overflow => write!(f, "Operation overflew the backing container."),
            Error::OutOfSpec(d) => write!(f, "{d}"),
        }
    }
}

impl std::error::Error for Error {}

impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}

impl From<std::str::Utf8Error> for Error {
    fn from(e: std::str::Utf8Error) -> Self {
        Error::External("".into(), Box::new(e))
    }
}

pub type Result<T> = std::result::Result<T, Error>;
