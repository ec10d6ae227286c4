//! Stand-in for `rand` 0.8: every primitive draw goes through `vp_draw`, which
//! is an arbitrary value for the symbolic run and a queue for the replay.
//! Contracts (documented ranges) of each kind of draw are in engine/draws.py.
extern "C" {
    fn vp_draw(kind: u32, a: f64, b: f64, c: f64) -> f64;
    fn vp_draw_int(kind: u32, a: f64, b: f64, lo: i64, hi: i64) -> i64;
}
pub mod kind {
    pub const U01: u32 = 0;            // [0, 1)
    pub const UNIFORM: u32 = 1;        // [a, b) or [a, b]
    pub const BOOL: u32 = 2;           // P(1) = a
    pub const INT: u32 = 3;            // {lo, ..., hi}, uniform
    pub const RAW: u32 = 4;            // raw 64 bits
    pub const OPEN01: u32 = 5;         // (0, 1)
    pub const OPENCLOSED01: u32 = 6;   // (0, 1]
    pub const NORMAL: u32 = 10;        // mean a, sd b
    pub const EXP: u32 = 11;           // rate a
    pub const GAMMA: u32 = 12;         // shape a, scale b
    pub const BETA: u32 = 13;
    pub const CAUCHY: u32 = 14;        // location a, scale b
    pub const CHISQ: u32 = 15;
    pub const FISHER: u32 = 16;
    pub const LOGNORMAL: u32 = 17;     // mu a, sigma b
    pub const PARETO: u32 = 18;        // scale a, shape b
    pub const STUDENT: u32 = 19;
    pub const TRIANGULAR: u32 = 20;    // min a, max b, mode c
    pub const WEIBULL: u32 = 21;       // scale a, shape b
    pub const POISSON: u32 = 22;       // rate a
    pub const BINOMIAL: u32 = 23;      // trials lo = hi = n, p = a
    pub const GEOMETRIC: u32 = 24;     // failures before the first success, p = a
    pub const INVGAUSS: u32 = 25;      // mean a, shape b
    pub const GUMBEL: u32 = 26;        // location a, scale b
    pub const FRECHET: u32 = 27;       // location a, scale b, shape c
}
#[inline] pub fn draw(k: u32, a: f64, b: f64, c: f64) -> f64 { unsafe { vp_draw(k, a, b, c) } }
#[inline] pub fn draw_int(k: u32, a: f64, b: f64, lo: i64, hi: i64) -> i64 {
    unsafe { vp_draw_int(k, a, b, lo, hi) }
}

#[derive(Debug)]
pub struct Error;

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(dest)) }
}
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R {
    fn next_u32(&mut self) -> u32 { (**self).next_u32() }
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { (**self).fill_bytes(dest) }
}

pub trait Rng: RngCore {
    #[inline]
    fn gen<T>(&mut self) -> T where distributions::Standard: distributions::Distribution<T> {
        use distributions::Distribution;
        distributions::Standard.sample(self)
    }
    #[inline]
    fn gen_range<T, S: distributions::uniform::SampleRange<T>>(&mut self, range: S) -> T {
        range.sample_single(self)
    }
    #[inline]
    fn gen_bool(&mut self, p: f64) -> bool {
        assert!(p >= 0.0 && p <= 1.0, "p outside range [0.0, 1.0]");
        draw_int(kind::BOOL, p, 0.0, 0, 1) != 0
    }
    #[inline]
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T { d.sample(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod distributions {
    use crate::{draw, draw_int, kind, Rng};
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
        fn sample_iter<R: Rng>(self, rng: R) -> DistIter<Self, R, T> where Self: Sized {
            DistIter { distr: self, rng, p: std::marker::PhantomData }
        }
    }
    pub struct DistIter<D, R, T> { distr: D, rng: R, p: std::marker::PhantomData<T> }
    impl<D: Distribution<T>, R: Rng, T> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { Some(self.distr.sample(&mut self.rng)) }
    }
    impl<'a, T, D: Distribution<T> + ?Sized> Distribution<T> for &'a D {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T { (**self).sample(rng) }
    }
    #[derive(Debug, Clone, Copy)] pub struct Standard;
    #[derive(Debug, Clone, Copy)] pub struct Open01;
    #[derive(Debug, Clone, Copy)] pub struct OpenClosed01;
    impl Distribution<f64> for Standard {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { draw(kind::U01, 0.0, 1.0, 0.0) }
    }
    impl Distribution<f64> for Open01 {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { draw(kind::OPEN01, 0.0, 1.0, 0.0) }
    }
    impl Distribution<f64> for OpenClosed01 {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 {
            draw(kind::OPENCLOSED01, 0.0, 1.0, 0.0)
        }
    }
    impl Distribution<bool> for Standard {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> bool {
            draw_int(kind::BOOL, 0.5, 0.0, 0, 1) != 0
        }
    }
    impl Distribution<u64> for Standard {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u64 {
            draw_int(kind::RAW, 0.0, 0.0, i64::MIN, i64::MAX) as u64
        }
    }
    #[derive(Debug, Clone, Copy)] pub struct Bernoulli { p: f64 }
    #[derive(Debug)] pub struct BernoulliError;
    impl Bernoulli {
        pub fn new(p: f64) -> Result<Bernoulli, BernoulliError> {
            if p >= 0.0 && p <= 1.0 { Ok(Bernoulli { p }) } else { Err(BernoulliError) }
        }
    }
    impl Distribution<bool> for Bernoulli {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> bool {
            draw_int(kind::BOOL, self.p, 0.0, 0, 1) != 0
        }
    }
    #[derive(Debug, Clone, Copy)] pub struct Uniform<T> { pub(crate) lo: T, pub(crate) hi: T, incl: bool }
    impl<T: PartialOrd> Uniform<T> {
        #[inline] pub fn new(lo: T, hi: T) -> Uniform<T> {
            assert!(lo < hi, "Uniform::new called with `low >= high`");
            Uniform { lo, hi, incl: false }
        }
        #[inline] pub fn new_inclusive(lo: T, hi: T) -> Uniform<T> {
            assert!(lo <= hi, "Uniform::new_inclusive called with `low > high`");
            Uniform { lo, hi, incl: true }
        }
    }
    impl Distribution<f64> for Uniform<f64> {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 {
            draw(kind::UNIFORM, self.lo, self.hi, if self.incl { 1.0 } else { 0.0 })
        }
    }
    macro_rules! ui { ($($t:ty)*) => { $(impl Distribution<$t> for Uniform<$t> {
        #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> $t {
            draw_int(kind::INT, 0.0, 0.0, self.lo as i64,
                     if self.incl { self.hi as i64 } else { self.hi as i64 - 1 }) as $t
        }
    })* } }
    ui!(i64 i32 u64 u32 usize isize);
    pub mod uniform {
        use super::{Distribution, Uniform};
        use crate::Rng;
        pub trait SampleRange<T> { fn sample_single<R: Rng + ?Sized>(self, rng: &mut R) -> T; }
        impl<T: PartialOrd> SampleRange<T> for std::ops::Range<T> where Uniform<T>: Distribution<T> {
            fn sample_single<R: Rng + ?Sized>(self, rng: &mut R) -> T {
                Uniform::new(self.start, self.end).sample(rng)
            }
        }
        impl<T: PartialOrd + Copy> SampleRange<T> for std::ops::RangeInclusive<T> where Uniform<T>: Distribution<T> {
            fn sample_single<R: Rng + ?Sized>(self, rng: &mut R) -> T {
                Uniform::new_inclusive(*self.start(), *self.end()).sample(rng)
            }
        }
    }
}
pub mod prelude { pub use crate::{distributions::Distribution, Rng, RngCore}; }

/// The generator the harness passes in: raw words are draws as well.
pub struct VpRng;
impl RngCore for VpRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { draw_int(kind::RAW, 0.0, 0.0, i64::MIN, i64::MAX) as u64 }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest.iter_mut() { *b = self.next_u64() as u8 } }
}
pub fn thread_rng() -> VpRng { VpRng }
