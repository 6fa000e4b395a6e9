//! The form of an e-mail address: something, an @ and a host of letters, digits, dots, dashes.
use std::borrow::Cow;
pub fn validate_email<'a, T: Into<Cow<'a, str>>>(v: T) -> bool {
    let v = v.into();
    let Some((user, host)) = v.rsplit_once('@') else { return false };
    !user.is_empty()
        && user.len() <= 64
        && user.chars().all(|c| c.is_ascii_alphanumeric() || ".!#$%&'*+/=?^_`{|}~-".contains(c))
        && !host.is_empty()
        && host.split('.').all(|p| !p.is_empty() && !p.starts_with('-') && !p.ends_with('-') && p.chars().all(|c| c.is_ascii_alphanumeric() || c == '-'))
}
