use crate::types::Index;
use std::sync::Arc;

pub trait Offset: Index {
    const IS_LARGE: bool;
}
impl Offset for i32 {
    const IS_LARGE: bool = false;
}
impl Offset for i64 {
    const IS_LARGE: bool = true;
}

#[derive(Debug, Clone, PartialEq)]
pub struct OffsetsBuffer<O: Offset>(pub(crate) Arc<Vec<O>>);

impl<O: Offset> OffsetsBuffer<O> {
    /// Start and end of the element `i`.
    pub fn start_end(&self, i: usize) -> (usize, usize) {
        assert!(i + 1 < self.0.len());
        (self.0[i].to_usize(), self.0[i + 1].to_usize())
    }
    pub fn len_proxy(&self) -> usize {
        self.0.len() - 1
    }
    pub fn buffer(&self) -> &[O] {
        &self.0
    }
}
