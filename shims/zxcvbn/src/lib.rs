//! Stand-in for the password strength estimate: long passwords of several different characters
//! that are not among the user's inputs score 4, others 1; an empty one is an error.
#[derive(Debug)]
pub enum ZxcvbnError {
    BlankPassword,
}
impl std::fmt::Display for ZxcvbnError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Zxcvbn cannot evaluate a blank password")
    }
}
impl std::error::Error for ZxcvbnError {}
pub struct Entropy(u8);
impl Entropy {
    pub fn score(&self) -> u8 {
        self.0
    }
}
pub fn zxcvbn(p: &str, inputs: &[&str]) -> Result<Entropy, ZxcvbnError> {
    if p.is_empty() {
        return Err(ZxcvbnError::BlankPassword);
    }
    let mut c: Vec<char> = p.chars().collect();
    c.sort();
    c.dedup();
    let known = inputs.iter().any(|i| i.eq_ignore_ascii_case(p));
    Ok(Entropy(if p.chars().count() >= 10 && c.len() >= 6 && !known { 4 } else { 1 }))
}
