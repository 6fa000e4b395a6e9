//! See the stand-in for password-hash.
pub enum Algorithm {
    Argon2d,
    Argon2i,
    Argon2id,
}
pub enum Version {
    V0x10,
    V0x13,
}
#[derive(Default)]
pub struct Params;
#[derive(Default)]
pub struct Argon2<'a>(std::marker::PhantomData<&'a ()>);
impl Argon2<'_> {
    pub fn new(_: Algorithm, _: Version, _: Params) -> Self {
        Argon2(Default::default())
    }
}
impl password_hash::PasswordHasher for Argon2<'_> {}
pub use password_hash;
pub use password_hash::PasswordHash;
pub use password_hash::PasswordHasher;
pub use password_hash::PasswordVerifier;
