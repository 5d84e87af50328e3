//! Uses of the `ctor!` macro whose expansions are analysed (P02).
#![feature(negative_impls)]
#![allow(dead_code)]
use ctor::{ctor, recursively_pinned, Ctor, Infallible};

#[recursively_pinned]
pub struct Named<A, B, C> {
    pub a: A,
    pub b: B,
    pub c: C,
}
pub fn named<A, B, C>(
    a: impl Ctor<Output = A, Error = Infallible>,
    b: impl Ctor<Output = B, Error = Infallible>,
    c: impl Ctor<Output = C, Error = Infallible>,
) -> impl Ctor<Output = Named<A, B, C>, Error = Infallible> {
    ctor!(Named::<A, B, C> { a: a, b: b, c: c })
}

#[recursively_pinned]
pub struct Tuple<A, B>(pub A, pub B);
pub fn tuple<A, B>(
    a: impl Ctor<Output = A, Error = Infallible>,
    b: impl Ctor<Output = B, Error = Infallible>,
) -> impl Ctor<Output = Tuple<A, B>, Error = Infallible> {
    ctor!(Tuple::<A, B>(a, b))
}

#[recursively_pinned]
pub struct Unit;
pub fn unit() -> impl Ctor<Output = Unit, Error = Infallible> {
    ctor!(Unit)
}
