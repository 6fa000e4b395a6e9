//! Stand-in for the crate of the same name (not in the offline cache).
pub trait FallibleStreamingIterator {
    type Item: ?Sized;
    type Error;
    fn advance(&mut self) -> Result<(), Self::Error>;
    fn get(&self) -> Option<&Self::Item>;
    fn next(&mut self) -> Result<Option<&Self::Item>, Self::Error> {
        self.advance()?;
        Ok((*self).get())
    }
}
pub struct Convert<I, T> {
    it: I,
    cur: Option<T>,
}
pub fn convert<I, T, E>(it: I) -> Convert<I::IntoIter, T>
where I: IntoIterator<Item = Result<T, E>> {
    Convert { it: it.into_iter(), cur: None }
}
impl<I, T, E> FallibleStreamingIterator for Convert<I, T>
where I: Iterator<Item = Result<T, E>>
{
    type Item = T;
    type Error = E;
    fn advance(&mut self) -> Result<(), E> {
        self.cur = match self.it.next() {
            Some(Ok(v)) => Some(v),
            Some(Err(e)) => return Err(e),
            None => None,
        };
        Ok(())
    }
    fn get(&self) -> Option<&T> {
        self.cur.as_ref()
    }
}
