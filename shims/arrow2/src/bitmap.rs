use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct Bitmap {
    bits: Arc<Vec<bool>>,
    off: usize,
    len: usize,
}
impl PartialEq for Bitmap {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && (0..self.len).all(|i| self.get_bit(i) == o.get_bit(i))
    }
}
impl Bitmap {
    pub fn from_vec(v: Vec<bool>) -> Self {
        let len = v.len();
        Self { bits: Arc::new(v), off: 0, len }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn get_bit(&self, i: usize) -> bool {
        assert!(i < self.len);
        self.bits[self.off + i]
    }
    pub fn unset_bits(&self) -> usize {
        (0..self.len).filter(|i| !self.get_bit(*i)).count()
    }
    pub fn sliced(mut self, offset: usize, length: usize) -> Self {
        assert!(offset + length <= self.len);
        self.off += offset;
        self.len = length;
        self
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        (0..self.len).map(|i| self.get_bit(i))
    }
}
