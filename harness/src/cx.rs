//! A context that records nothing: the code under check is the formats, not
//! the formatting of their error messages.
use musli::alloc::{Allocator, Disabled, System};
use musli::Context;

#[derive(Clone, Copy)]
pub struct Cx<A>(pub A);

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Er;

impl<A: Allocator> Context for Cx<A> {
    type Error = Er;
    type Mark = ();
    type Allocator = A;
    #[inline]
    fn clear(self) {}
    #[inline]
    fn advance(self, _: usize) {}
    #[inline]
    fn mark(self) {}
    #[inline]
    fn restore(self, _: &()) {}
    #[inline]
    fn alloc(self) -> A {
        self.0
    }
    #[inline]
    fn custom<E>(self, _: E) -> Er
    where
        E: 'static + Send + Sync + core::error::Error,
    {
        Er
    }
    #[inline]
    fn message<M>(self, _: M) -> Er
    where
        M: core::fmt::Display,
    {
        Er
    }
}

/// No allocation.
pub fn nx() -> Cx<Disabled> {
    Cx(Disabled::new())
}
/// The system allocator.
pub fn sx() -> Cx<System> {
    Cx(System::new())
}
