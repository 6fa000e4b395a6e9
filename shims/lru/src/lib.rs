//! Offline stand-in for the `lru` crate: same eviction order, linear lookups.
use std::borrow::Borrow;
use std::hash::Hash;
use std::num::NonZeroUsize;

/// Entries from the most to the least recently used.
pub struct LruCache<K, V> {
    cap: usize,
    v: Vec<(K, V)>,
}
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        LruCache { cap: cap.get(), v: Vec::new() }
    }
    pub fn unbounded() -> Self {
        LruCache { cap: usize::MAX, v: Vec::new() }
    }
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where K: Borrow<Q> {
        self.v.iter().position(|(x, _)| x.borrow() == k)
    }
    fn touch<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<()>
    where K: Borrow<Q> {
        let i = self.pos(k)?;
        self.v[..=i].rotate_right(1);
        Some(())
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if self.touch(&k).is_some() {
            return Some(std::mem::replace(&mut self.v[0].1, v));
        }
        if self.v.len() >= self.cap {
            self.v.pop();
        }
        self.v.insert(0, (k, v));
        None
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        if self.touch(&k).is_some() {
            return Some((k, std::mem::replace(&mut self.v[0].1, v)));
        }
        let r = if self.v.len() >= self.cap { self.v.pop() } else { None };
        self.v.insert(0, (k, v));
        r
    }
    pub fn get<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&V>
    where K: Borrow<Q> {
        self.touch(k)?;
        Some(&self.v[0].1)
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where K: Borrow<Q> {
        self.touch(k)?;
        Some(&mut self.v[0].1)
    }
    pub fn peek<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
    where K: Borrow<Q> {
        self.pos(k).map(|i| &self.v[i].1)
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where K: Borrow<Q> {
        self.pos(k).is_some()
    }
    pub fn pop<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
    where K: Borrow<Q> {
        self.pos(k).map(|i| self.v.remove(i).1)
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        self.v.pop()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.v.iter().map(|(k, v)| (k, v))
    }
}
impl<K, V> std::fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("LruCache").field("len", &self.v.len()).field("cap", &self.cap).finish()
    }
}
