"""C23: what the traits derive for a distribution that implements only the required methods."""
from dists import *

TITLE = 'A user-defined distribution gets consistent derived methods from the traits'
# Each type below implements a minimal set of methods with arbitrary values (polynomials
# with symbolic coefficients in the argument), so the methods under check are the traits' own.
HELPERS = HEAD + '''
use crate::distance::Mahalanobis;
use spaces::real::{Reals, reals};
pub struct Rg;
impl rand::RngCore for Rg {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, _: &mut [u8]) {}
}
fn poly(c: &[f64; 4], x: f64) -> f64 { c[0] + c[1] * x + c[2] * x * x }
macro_rules! user {
    ($name:ident { $($m:item)* }) => {
        #[derive(Debug, Clone)] pub struct $name(pub [f64; 4]);
        impl From<[f64; 4]> for $name { fn from(c: [f64; 4]) -> $name { $name(c) } }
        impl Distribution for $name {
            type Support = Reals<f64>;
            type Params = [f64; 4];
            fn support(&self) -> Reals<f64> { reals() }
            fn params(&self) -> [f64; 4] { self.0 }
            fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 { self.0[0] + self.0[1] * rng.gen::<f64>() }
            $($m)*
        }
        impl Univariate for $name {}
    };
}
// D1 gives the cdf, the density, the quantile, the variance, the kurtosis, the likelihood
user!(D1 { fn cdf(&self, x: &f64) -> Probability { Probability::new_unchecked(poly(&self.0, *x)) } });
impl ContinuousDistribution for D1 { fn pdf(&self, x: &f64) -> f64 { poly(&self.0, *x) } }
impl DiscreteDistribution for D1 { fn pmf(&self, x: &f64) -> Probability { Probability::new_unchecked(poly(&self.0, *x)) } }
impl Quantiles for D1 { fn quantile(&self, p: Probability) -> f64 { poly(&self.0, p.unwrap()) } }
impl UvMoments for D1 {
    fn mean(&self) -> f64 { self.0[0] }
    fn variance(&self) -> f64 { self.0[1] }
    fn skewness(&self) -> f64 { self.0[2] }
    fn kurtosis(&self) -> f64 { self.0[3] }
}
impl Likelihood for D1 { fn likelihood(&self, s: &[f64]) -> f64 { poly(&self.0, s[0]) + s[1] } }
impl Mahalanobis for D1 { fn d_mahalanobis(&self, x: &f64) -> f64 { poly(&self.0, *x) } }
// D2 gives the logarithmic forms and the complementary quantile, the standard deviation, the excess kurtosis
user!(D2 { fn log_cdf(&self, x: &f64) -> f64 { poly(&self.0, *x) } });
impl ContinuousDistribution for D2 { fn log_pdf(&self, x: &f64) -> f64 { poly(&self.0, *x) } }
impl DiscreteDistribution for D2 { fn log_pmf(&self, x: &f64) -> f64 { poly(&self.0, *x) } }
impl Quantiles for D2 { fn cquantile(&self, p: Probability) -> f64 { poly(&self.0, p.unwrap()) } }
impl UvMoments for D2 {
    fn mean(&self) -> f64 { self.0[0] }
    fn standard_deviation(&self) -> f64 { self.0[1] }
    fn skewness(&self) -> f64 { self.0[2] }
    fn excess_kurtosis(&self) -> f64 { self.0[3] }
}
impl Likelihood for D2 { fn log_likelihood(&self, s: &[f64]) -> f64 { poly(&self.0, s[0]) + s[1] } }
impl Mahalanobis for D2 { fn d_mahalanobis_squared(&self, x: &f64) -> f64 { poly(&self.0, *x) } }
// M gives a mean and a covariance
#[derive(Debug, Clone)] pub struct M<const N: usize>(pub [[f64; N]; N]);
impl<const N: usize> From<[[f64; N]; N]> for M<N> { fn from(c: [[f64; N]; N]) -> M<N> { M(c) } }
impl<const N: usize> Distribution for M<N> {
    type Support = Reals<f64>;
    type Params = [[f64; N]; N];
    fn support(&self) -> Reals<f64> { reals() }
    fn params(&self) -> [[f64; N]; N] { self.0 }
    fn cdf(&self, _: &f64) -> Probability { Probability::half() }
    fn sample<R: rand::Rng + ?Sized>(&self, _: &mut R) -> f64 { 0.0 }
}
impl<const N: usize> Multivariate<N> for M<N> {}
impl<const N: usize> MvMoments<N> for M<N> {
    fn mean(&self) -> [f64; N] { [0.0; N] }
    fn covariance(&self) -> [[f64; N]; N] { self.0 }
}
unsafe fn mat<const N: usize>(a: *const f64) -> M<N> { let mut m = [[0.0; N]; N]; for i in 0..N { for j in 0..N { m[i][j] = A(a, i * N + j) } } M(m) }
// a sum that depends on the order and grouping, and is refused when the summand is negative
#[derive(Debug)] pub struct Neg;
impl std::fmt::Display for Neg { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl failure::Fail for Neg {}
impl Convolution<D1> for D1 {
    type Output = D1;
    fn convolve(self, rv: D1) -> Result<D1, failure::Error> {
        if rv.0[0] < 0.0 { return Err(Neg.into()) }
        Ok(D1([self.0[0] + rv.0[0], self.0[1] + 1.0, 0.0, 0.0]))
    }
}
unsafe fn c4(a: *const f64) -> [f64; 4] { [A(a, 0), A(a, 1), A(a, 2), A(a, 3)] }
'''
CORE = False


def pol(c, x):
    return c.a[0] + c.a[1] * x + c.a[2] * x ** 2


def cases(tier):
    out = []
    prob = lambda c: [ge(c.a[4], Z), le(c.a[4], ONE)]
    pos = lambda f: (lambda c: [gt(f(c, c.a[4]), Z)])

    def add(name, ty, expr, want, pre=None, na=5, label=None):
        out.append(RCase(name, 'let d = %s(c4(a)); let x = A(a, 4); O(o, 0, %s); 1' % (ty, expr), na=na, core=False, pre=pre or (lambda c: []),
                         post=lambda c: [EQ(label or name, c.o(0), want(c))]))
    P_ = 'Probability::new_unchecked(x)'
    # from the cdf / from the log cdf
    add('cdf_ccdf', 'D1', 'd.ccdf(&x).unwrap()', lambda c: 1 - pol(c, c.a[4]))
    add('cdf_log', 'D1', 'd.log_cdf(&x)', lambda c: ln(pol(c, c.a[4])), pre=pos(pol))
    add('cdf_logc', 'D1', 'd.log_ccdf(&x)', lambda c: ln(1 - pol(c, c.a[4])), pre=pos(lambda c, x: 1 - pol(c, x)))
    add('logcdf_cdf', 'D2', 'd.cdf(&x).unwrap()', lambda c: exp(pol(c, c.a[4])))
    add('logcdf_ccdf', 'D2', 'd.ccdf(&x).unwrap()', lambda c: 1 - exp(pol(c, c.a[4])))
    add('logcdf_logc', 'D2', 'd.log_ccdf(&x)', lambda c: ln(1 - exp(pol(c, c.a[4]))), pre=lambda c: [lt(pol(c, c.a[4]), Z), gt(1 - exp(pol(c, c.a[4])), Z)])
    # densities and masses
    add('pdf_log', 'D1', 'd.log_pdf(&x)', lambda c: ln(pol(c, c.a[4])), pre=pos(pol))
    add('pmf_log', 'D1', 'd.log_pmf(&x)', lambda c: ln(pol(c, c.a[4])), pre=pos(pol))
    add('logpdf_pdf', 'D2', 'd.pdf(&x)', lambda c: exp(pol(c, c.a[4])))
    add('logpmf_pmf', 'D2', 'd.pmf(&x).unwrap()', lambda c: exp(pol(c, c.a[4])))
    # quantiles
    quart = lambda q: (lambda c, ty: pol(c, R(q[0], q[1]) if ty == 'D1' else R(q[1] - q[0], q[1])))
    lo, me, up = quart((1, 4)), quart((1, 2)), quart((3, 4))
    for ty in ('D1', 'D2'):
        n = ty.lower()
        add(n + '_quantile', ty, 'd.quantile(%s)' % P_, lambda c, ty=ty: pol(c, c.a[4] if ty == 'D1' else 1 - c.a[4]), pre=prob)
        add(n + '_cquantile', ty, 'd.cquantile(%s)' % P_, lambda c, ty=ty: pol(c, c.a[4] if ty == 'D2' else 1 - c.a[4]), pre=prob)
        for nm, f in (('lower_quartile', lambda c, ty: lo(c, ty)), ('median', lambda c, ty: me(c, ty)), ('upper_quartile', lambda c, ty: up(c, ty)),
                      ('iqr', lambda c, ty: up(c, ty) - lo(c, ty)),
                      ('lower_fence', lambda c, ty: lo(c, ty) - R(3, 2) * (up(c, ty) - lo(c, ty))),
                      ('upper_fence', lambda c, ty: up(c, ty) + R(3, 2) * (up(c, ty) - lo(c, ty)))):
            add('%s_%s' % (n, nm), ty, 'd.%s()' % nm, lambda c, f=f, ty=ty: f(c, ty))
    # moments
    add('d1_sd', 'D1', 'd.standard_deviation()', lambda c: sq(c.a[1]), pre=lambda c: [ge(c.a[1], Z)])
    add('d1_excess', 'D1', 'd.excess_kurtosis()', lambda c: c.a[3] - 3)
    add('d2_variance', 'D2', 'd.variance()', lambda c: c.a[1] ** 2)
    add('d2_kurtosis', 'D2', 'd.kurtosis()', lambda c: c.a[3] + 3)
    # likelihoods and distances
    lk = lambda c: pol(c, c.a[4]) + c.a[5]
    add('d1_loglik', 'D1', 'd.log_likelihood(&[x, A(a,5)])', lambda c: ln(lk(c)), pre=lambda c: [gt(lk(c), Z)], na=6)
    add('d2_lik', 'D2', 'd.likelihood(&[x, A(a,5)])', lambda c: exp(lk(c)), na=6)
    add('d1_mahalanobis_squared', 'D1', 'd.d_mahalanobis_squared(&x)', lambda c: pol(c, c.a[4]) ** 2)
    add('d2_mahalanobis', 'D2', 'd.d_mahalanobis(&x)', lambda c: sq(pol(c, c.a[4])), pre=lambda c: [ge(pol(c, c.a[4]), Z)])
    # parameters and support by value, conversion
    out.append(RCase('into_params', 'let d = D1::from(D1(c4(a)).into_params()); let p = d.params(); for i in 0..4 { O(o,i,p[i]) } 1', na=4, no=4, core=False,
                     post=lambda c: [EQ('parameter %d' % i, c.o(i), c.a[i]) for i in range(4)]))
    # repeated sampling: one call of sample per value, in order, each from a new draw
    top = 10 if tier == 'quick' else 24
    for n in range(0, top):
        for how, code in (('n', 'let v = d.sample_n(&mut Rg, %d);' % n), ('iter', 'let mut g = Rg; let v: Vec<f64> = d.sample_iter(&mut g).take(%d).collect();' % n),
                          ('next', 'let mut g = Rg; let mut s = Sampler::new(&d, &mut g); let mut v = vec![]; for _ in 0..%d { v.push(s.next().unwrap()) }' % n)):
            def post(c, n=n):
                r = [HOLDS('%d values' % n, same(c.oi(0), bv(n, 64))), HOLDS('one draw each', TRUE if len(c.draws) == n else FALSE)]
                if len(c.draws) == n:
                    r += [EQ('value %d' % i, c.o(1 + i), c.a[0] + c.a[1] * c.draws[i][2]) for i in range(n)]
                return r
            out.append(RCase('sample_%s_%d' % (how, n), 'let d = D1(c4(a)); %s OI(o,0,v.len() as i64); for i in 0..v.len() { O(o,1+i,v[i]); } 1' % code, na=4, no=1 + n, core=False, post=post))
    out.append(RCase('sample_count', 'let d = D1(c4(a)); let mut g = Rg; let h = d.sample_iter(&mut g).size_hint(); (h.0 == usize::MAX && h.1.is_none()) as i64', na=4, core=False,
                     post=lambda c: [HOLDS('an endless iterator', same(c.ret, bv(1, 64)))]))
    # vectors
    for n in range(1, 8 if tier == 'quick' else 11):
        pd = lambda c, n=n: [gt(c.a[i * n + i], Z) for i in range(n)]
        put = 'for i in 0..%d { for j in 0..%d { O(o, i * %d + j, v[i][j]) } }' % (n, n, n)
        out.append(RCase('mv_variance_%d' % n, 'let v = MvMoments::variance(&mat::<%d>(a)); for i in 0..%d { O(o,i,v[i]) } 1' % (n, n), na=n * n, no=n, core=False,
                         post=lambda c, n=n: [EQ('variance %d' % i, c.o(i), c.a[i * n + i]) for i in range(n)]))
        out.append(RCase('mv_correlation_%d' % n, 'let v = mat::<%d>(a).correlation(); %s 1' % (n, put), na=n * n, no=n * n, core=False, pre=pd,
                         post=lambda c, n=n: [EQ('correlation %d %d' % (i, j), c.o(i * n + j), c.a[i * n + j] / sq(c.a[i * n + i] * c.a[j * n + j])) for i in range(n) for j in range(n)]))
        out.append(RCase('mv_dimension_%d' % n, 'mat::<%d>(a).dimensionality() as i64' % n, na=n * n, core=False, post=lambda c, n=n: [HOLDS('dimension', same(c.ret, bv(n, 64)))]))
    # sums of two or more further variables: each added once, the first refusal is the answer
    for n in range(2, 9 if tier == 'quick' else 14):
        v = 'vec![%s]' % ', '.join('D1([A(a,%d), 0.0, 0.0, 0.0])' % (i + 1) for i in range(n))

        def post(c, n=n):
            ok = ands([ge(c.a[i], Z) for i in range(1, n + 1)])
            r = [HOLDS('accepts exactly when every sum does', iff(same(c.ret, bv(1, 64)), ok))]
            if c.o(0) is not None:
                r += [EQ('sum', c.o(0), fsum(c.a[i] for i in range(n + 1))), EQ('number of sums', c.o(1), R(n))]
            return r
        out.append(RCase('sum_%d' % n, 'match D1([A(a,0), 0.0, 0.0, 0.0]).convolve_many(%s) { Ok(d) => { O(o,0,d.0[0]); O(o,1,d.0[1]); 1 } Err(_) => 0 }' % v, na=n + 1, no=2, core=False, post=post))
    return out


BOUNDS = ('arbitrary values of the required methods (quadratic polynomials with symbolic coefficients in their argument), every point and probability; up to 9 repeated samples (23 thorough), '
          'vectors of 1 to 7 coordinates (10), sums of up to 8 further variables (13)')
ASSUME = ['exact real arithmetic']
