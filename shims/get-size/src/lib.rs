//! Stand-in: optiprism derives `GetSize` but never calls it.
pub use get_size_derive::GetSize;
pub trait GetSize: Sized {
    fn get_stack_size() -> usize {
        std::mem::size_of::<Self>()
    }
    fn get_heap_size(&self) -> usize {
        0
    }
    fn get_size(&self) -> usize {
        Self::get_stack_size() + self.get_heap_size()
    }
}
