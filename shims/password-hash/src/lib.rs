//! Stand-in for password-hash: salted SHA-256 in the place of Argon2 (fast and deterministic
//! given the salt; different passwords have different hashes).
use std::fmt;

use rand::Rng;
use sha2::Digest;
use sha2::Sha256;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    Password,
    PhcStringField,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Error::Password => "invalid password",
            Error::PhcStringField => "invalid hash",
        })
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct SaltString(String);
impl SaltString {
    pub fn generate(mut r: impl Rng) -> Self {
        SaltString(hex::encode(r.gen::<[u8; 16]>()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
pub trait PasswordHasher {}
pub trait PasswordVerifier {}
impl<T: PasswordHasher> PasswordVerifier for T {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PasswordHash<'a> {
    salt: String,
    hash: String,
    _a: std::marker::PhantomData<&'a ()>,
}
fn digest(salt: &str, p: &[u8]) -> String {
    let mut h = Sha256::new();
    h.update(salt.as_bytes());
    h.update([0]);
    h.update(p);
    hex::encode(h.finalize())
}
impl<'a> PasswordHash<'a> {
    pub fn new(s: &'a str) -> Result<Self> {
        let mut p = s.split('$');
        match (p.next(), p.next(), p.next(), p.next(), p.next()) {
            (Some(""), Some("stand-in"), Some(s), Some(h), None) => Ok(PasswordHash { salt: s.to_string(), hash: h.to_string(), _a: Default::default() }),
            _ => Err(Error::PhcStringField),
        }
    }
    pub fn generate(_: impl PasswordHasher, password: impl AsRef<[u8]>, salt: &'a SaltString) -> Result<Self> {
        Ok(PasswordHash { salt: salt.0.clone(), hash: digest(&salt.0, password.as_ref()), _a: Default::default() })
    }
    pub fn verify_password(&self, _: &[&dyn PasswordVerifier], password: impl AsRef<[u8]>) -> Result<()> {
        if digest(&self.salt, password.as_ref()) == self.hash {
            Ok(())
        } else {
            Err(Error::Password)
        }
    }
}
impl fmt::Display for PasswordHash<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "$stand-in${}${}", self.salt, self.hash)
    }
}
