//! Stand-in for `rand_distr` 0.4: the parameter checks are those of the real
//! crate, the draw itself is `rand::draw` tagged with the distribution's kind
//! and parameters.
pub use rand::distributions::*;
pub use rand;
use rand::{draw, draw_int, kind, Rng};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("invalid parameters") }
}
impl std::error::Error for Error {}

macro_rules! dist {
    ($name:ident, $k:ident, ($($p:ident),+), $ok:expr) => {
        #[derive(Debug, Clone, Copy)]
        pub struct $name<F> { $($p: F),+ }
        impl $name<f64> {
            #[inline]
            pub fn new($($p: f64),+) -> Result<$name<f64>, Error> {
                if $ok { Ok($name { $($p),+ }) } else { Err(Error) }
            }
        }
        impl Distribution<f64> for $name<f64> {
            #[inline]
            fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 {
                let mut v = [0.0f64; 3];
                let mut i = 0;
                $( v[i] = self.$p; i += 1; )+
                let _ = i;
                draw(kind::$k, v[0], v[1], v[2])
            }
        }
    };
}
dist!(Normal, NORMAL, (mean, std_dev), std_dev.is_finite());
dist!(LogNormal, LOGNORMAL, (mu, sigma), sigma.is_finite());
dist!(Exp, EXP, (lambda), lambda >= 0.0);
dist!(Gamma, GAMMA, (shape, scale), shape > 0.0 && scale > 0.0);
dist!(Beta, BETA, (alpha, beta), alpha > 0.0 && beta > 0.0);
dist!(Cauchy, CAUCHY, (median, scale), scale > 0.0);
dist!(ChiSquared, CHISQ, (k), k > 0.0);
dist!(FisherF, FISHER, (m, n), m > 0.0 && n > 0.0);
dist!(Pareto, PARETO, (scale, shape), scale > 0.0 && shape > 0.0);
dist!(StudentT, STUDENT, (n), n > 0.0);
dist!(Triangular, TRIANGULAR, (min, max, mode), max >= min && mode >= min && max >= mode);
dist!(Weibull, WEIBULL, (scale, shape), scale > 0.0 && shape > 0.0);
dist!(InverseGaussian, INVGAUSS, (mean, shape), mean > 0.0 && shape > 0.0);
dist!(Gumbel, GUMBEL, (location, scale), scale > 0.0 && scale.is_finite() && location.is_finite());
dist!(Frechet, FRECHET, (location, scale, shape), scale > 0.0 && shape > 0.0);

#[derive(Debug, Clone, Copy)] pub struct StandardNormal;
impl Distribution<f64> for StandardNormal {
    #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { draw(kind::NORMAL, 0.0, 1.0, 0.0) }
}
#[derive(Debug, Clone, Copy)] pub struct Exp1;
impl Distribution<f64> for Exp1 {
    #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { draw(kind::EXP, 1.0, 0.0, 0.0) }
}

#[derive(Debug, Clone, Copy)] pub struct Binomial { n: u64, p: f64 }
impl Binomial {
    #[inline] pub fn new(n: u64, p: f64) -> Result<Binomial, Error> {
        if p >= 0.0 && p <= 1.0 { Ok(Binomial { n, p }) } else { Err(Error) }
    }
}
impl Distribution<u64> for Binomial {
    #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u64 {
        draw_int(kind::BINOMIAL, self.p, 0.0, self.n as i64, self.n as i64) as u64
    }
}
#[derive(Debug, Clone, Copy)] pub struct Geometric { p: f64 }
impl Geometric {
    #[inline] pub fn new(p: f64) -> Result<Geometric, Error> {
        if p >= 0.0 && p <= 1.0 { Ok(Geometric { p }) } else { Err(Error) }
    }
}
impl Distribution<u64> for Geometric {
    #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u64 {
        draw_int(kind::GEOMETRIC, self.p, 0.0, 0, i64::MAX) as u64
    }
}

#[derive(Debug, Clone, Copy)] pub struct Poisson<F> { lambda: F }
impl Poisson<f64> {
    #[inline] pub fn new(lambda: f64) -> Result<Poisson<f64>, Error> {
        if lambda > 0.0 { Ok(Poisson { lambda }) } else { Err(Error) }
    }
}
impl Distribution<f64> for Poisson<f64> {
    #[inline] fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 {
        draw_int(kind::POISSON, self.lambda, 0.0, 0, i64::MAX) as f64
    }
}
