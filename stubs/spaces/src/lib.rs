//! Stand-in for the `spaces` crate, which /repo depends on by a path outside
//! the repository and which is not available offline. It offers the part of
//! that crate's API that rstat uses (plus obvious neighbours), with the
//! documented meaning: intervals described by their end points.
use std::marker::PhantomData;

/// Cardinality / dimensionality helpers.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Dim { Finite(usize), Infinite }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Card { Finite(usize), Infinite }

pub trait Space {
    const DIM: usize = 1;
    type Value;
    fn contains(&self, _val: &Self::Value) -> bool { true }
}

pub trait OrderedSpace: Space {
    fn min(&self) -> Option<Self::Value> { None }
    fn max(&self) -> Option<Self::Value> { None }
    fn inf(&self) -> Option<Self::Value> { self.min() }
    fn sup(&self) -> Option<Self::Value> { self.max() }
}

impl<S: Space, const N: usize> Space for [S; N] {
    const DIM: usize = N;
    type Value = [S::Value; N];
    fn contains(&self, val: &[S::Value; N]) -> bool {
        self.iter().zip(val.iter()).all(|(s, v)| s.contains(v))
    }
}

impl<A: Space, B: Space> Space for (A, B) {
    const DIM: usize = 2;
    type Value = (A::Value, B::Value);
}

impl<S: Space> Space for Vec<S> {
    type Value = Vec<S::Value>;
}

pub mod ops {
    /// Union of two sets.
    pub trait Union<T> {
        type Output;
        fn union(self, other: T) -> Self::Output;
        fn union_closure(self, other: T) -> <Self::Output as Closure>::Output
        where
            Self: Sized,
            Self::Output: Closure,
        {
            self.union(other).closure()
        }
    }

    /// Smallest closed interval that contains the set.
    pub trait Closure {
        type Output;
        fn closure(self) -> Self::Output;
    }
}

pub mod bounds {
    use std::marker::PhantomData;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Open<V>(pub V);
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Closed<V>(pub V);
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct NoBound<V>(pub PhantomData<V>);

    pub trait Bound {
        type Value;
        fn value(&self) -> Option<&Self::Value>;
        fn above(&self, x: &Self::Value) -> bool;
        fn below(&self, x: &Self::Value) -> bool;
        fn lower(self, other: Self) -> Self;
        fn upper(self, other: Self) -> Self;
    }
    impl<V: PartialOrd> Bound for Open<V> {
        type Value = V;
        fn value(&self) -> Option<&V> { Some(&self.0) }
        fn above(&self, x: &V) -> bool { x < &self.0 }
        fn below(&self, x: &V) -> bool { x > &self.0 }
        fn lower(self, o: Self) -> Self { if o.0 < self.0 { o } else { self } }
        fn upper(self, o: Self) -> Self { if o.0 > self.0 { o } else { self } }
    }
    impl<V: PartialOrd> Bound for Closed<V> {
        type Value = V;
        fn value(&self) -> Option<&V> { Some(&self.0) }
        fn above(&self, x: &V) -> bool { x <= &self.0 }
        fn below(&self, x: &V) -> bool { x >= &self.0 }
        fn lower(self, o: Self) -> Self { if o.0 < self.0 { o } else { self } }
        fn upper(self, o: Self) -> Self { if o.0 > self.0 { o } else { self } }
    }
    impl<V> Bound for NoBound<V> {
        type Value = V;
        fn value(&self) -> Option<&V> { None }
        fn above(&self, _: &V) -> bool { true }
        fn below(&self, _: &V) -> bool { true }
        fn lower(self, _: Self) -> Self { self }
        fn upper(self, _: Self) -> Self { self }
    }
}

pub mod intervals {
    use super::bounds::{self, Bound, NoBound};
    use super::{ops, OrderedSpace, PhantomData, Space};

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Interval<L, R> {
        pub left: L,
        pub right: R,
    }

    pub type Closed<V> = Interval<bounds::Closed<V>, bounds::Closed<V>>;
    pub type Open<V> = Interval<bounds::Open<V>, bounds::Open<V>>;
    pub type LeftClosed<V> = Interval<bounds::Closed<V>, NoBound<V>>;
    pub type LeftOpen<V> = Interval<bounds::Open<V>, NoBound<V>>;
    pub type RightClosed<V> = Interval<NoBound<V>, bounds::Closed<V>>;
    pub type RightOpen<V> = Interval<NoBound<V>, bounds::Open<V>>;
    pub type LCRO<V> = Interval<bounds::Closed<V>, bounds::Open<V>>;
    pub type LORC<V> = Interval<bounds::Open<V>, bounds::Closed<V>>;
    pub type Unbounded<V> = Interval<NoBound<V>, NoBound<V>>;

    impl<L: Bound, R: Bound<Value = L::Value>> Space for Interval<L, R> {
        type Value = L::Value;
        fn contains(&self, x: &L::Value) -> bool { self.left.below(x) && self.right.above(x) }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> OrderedSpace for Interval<L, R>
    where L::Value: Clone
    {
        fn min(&self) -> Option<L::Value> { self.left.value().cloned() }
        fn max(&self) -> Option<L::Value> { self.right.value().cloned() }
    }

    impl<V: PartialOrd> Closed<V> {
        pub fn closed(l: V, r: V) -> Option<Self> {
            if l <= r { Some(Self::closed_unchecked(l, r)) } else { None }
        }
        pub fn closed_unchecked(l: V, r: V) -> Self {
            Interval { left: bounds::Closed(l), right: bounds::Closed(r) }
        }
    }
    impl<V: num_like::ZeroOne> Closed<V> {
        pub fn unit() -> Self {
            Interval { left: bounds::Closed(V::zero()), right: bounds::Closed(V::one()) }
        }
    }
    impl<V> Open<V> {
        pub fn open_unchecked(l: V, r: V) -> Self {
            Interval { left: bounds::Open(l), right: bounds::Open(r) }
        }
    }
    impl<V> LeftClosed<V> {
        pub fn left_closed(l: V) -> Self {
            Interval { left: bounds::Closed(l), right: NoBound(PhantomData) }
        }
    }
    impl<V> LeftOpen<V> {
        pub fn left_open(l: V) -> Self {
            Interval { left: bounds::Open(l), right: NoBound(PhantomData) }
        }
    }
    impl<V> RightClosed<V> {
        pub fn right_closed(r: V) -> Self {
            Interval { left: NoBound(PhantomData), right: bounds::Closed(r) }
        }
    }
    impl<V> RightOpen<V> {
        pub fn right_open(r: V) -> Self {
            Interval { left: NoBound(PhantomData), right: bounds::Open(r) }
        }
    }
    impl<V> Unbounded<V> {
        pub fn unbounded() -> Self {
            Interval { left: NoBound(PhantomData), right: NoBound(PhantomData) }
        }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> ops::Union<Interval<L, R>> for Interval<L, R> {
        type Output = Interval<L, R>;
        fn union(self, o: Interval<L, R>) -> Interval<L, R> {
            Interval { left: self.left.lower(o.left), right: self.right.upper(o.right) }
        }
    }
    impl<L: Bound, R: Bound<Value = L::Value>> ops::Closure for Interval<L, R> {
        type Output = Interval<L, R>;
        fn closure(self) -> Self { self }
    }

    pub mod num_like {
        pub trait ZeroOne { fn zero() -> Self; fn one() -> Self; }
        macro_rules! z { ($($t:ty, $z:expr, $o:expr);*) => { $(impl ZeroOne for $t {
            fn zero() -> Self { $z }
            fn one() -> Self { $o }
        })* } }
        z!(f64, 0.0, 1.0; f32, 0.0, 1.0; u8, 0, 1; u16, 0, 1; u32, 0, 1; u64, 0, 1; usize, 0, 1;
           i8, 0, 1; i16, 0, 1; i32, 0, 1; i64, 0, 1; isize, 0, 1);
    }
}

pub mod real {
    use super::intervals;
    use super::intervals::num_like::ZeroOne;
    pub type Reals<V> = intervals::Unbounded<V>;
    pub type PositiveReals<V> = intervals::LeftOpen<V>;
    pub type NonNegativeReals<V> = intervals::LeftClosed<V>;
    pub type NegativeReals<V> = intervals::RightOpen<V>;
    pub type NonPositiveReals<V> = intervals::RightClosed<V>;
    pub fn reals<V>() -> Reals<V> { Reals::unbounded() }
    pub fn positive_reals<V: ZeroOne>() -> PositiveReals<V> { PositiveReals::left_open(V::zero()) }
    pub fn non_negative_reals<V: ZeroOne>() -> NonNegativeReals<V> {
        NonNegativeReals::left_closed(V::zero())
    }
    pub fn negative_reals<V: ZeroOne>() -> NegativeReals<V> { NegativeReals::right_open(V::zero()) }
    pub fn non_positive_reals<V: ZeroOne>() -> NonPositiveReals<V> {
        NonPositiveReals::right_closed(V::zero())
    }
}

pub mod discrete {
    use super::intervals;
    use super::intervals::num_like::ZeroOne;
    use super::{ops, Space};

    pub type Integers<V> = intervals::Unbounded<V>;
    pub type NonNegativeIntegers<V> = intervals::LeftClosed<V>;
    pub type Naturals<V> = intervals::LeftClosed<V>;
    pub fn integers<V>() -> Integers<V> { Integers::unbounded() }
    pub fn non_negative_integers<V: ZeroOne>() -> NonNegativeIntegers<V> {
        NonNegativeIntegers::left_closed(V::zero())
    }
    pub fn naturals<V: ZeroOne>() -> Naturals<V> { Naturals::left_closed(V::one()) }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Binary;
    pub fn binary() -> Binary { Binary }
    impl Space for Binary { type Value = bool; }
    impl ops::Union<Binary> for Binary {
        type Output = Binary;
        fn union(self, _: Binary) -> Binary { Binary }
    }
    impl ops::Closure for Binary {
        type Output = Binary;
        fn closure(self) -> Binary { Binary }
    }
}
