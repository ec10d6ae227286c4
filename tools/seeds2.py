"""More planted bugs (see seeds.py)."""


def more(seed, USE):
    seed('c10-pareto-variance', 'C10', [('src/univariate/pareto.rs', 'alpha if alpha <= 2.0 => INFINITY,', 'alpha if alpha < 1.5 => INFINITY,')],
         USE + '''
fn main() {
    assert!(near(pareto::Pareto::new(1.0, 3.0).unwrap().variance(), 0.75));
    for a in [0.5, 1.0, 1.2, 1.6, 1.9, 2.0].iter() {
        let v = std::panic::catch_unwind(|| pareto::Pareto::new(2.0, *a).unwrap().variance());
        assert!(v.map(|v| !v.is_finite()).unwrap_or(true), "the variance is infinite for alpha = {}", a);
    }
}
''', 'a tail index between 1.5 and 2', 'a finite, even negative, variance where it is infinite')

    seed('c11-weibull-kurtosis', 'C11', [('src/univariate/weibull.rs', '- 3.0 * gamma_2 * gamma_2', '- 3.0 * gamma_2 * gamma_2.min(4.0 * gamma_1)')],
         USE + '''
fn main() {
    // shape one is the exponential distribution, one half has raw moments (2k)!
    let at = |k: f64| -> weibull::Weibull { weibull::Params::new(1.0, k).unwrap().into() };
    assert!((at(1.0).excess_kurtosis() - 6.0).abs() < 1e-6);
    let m = [2.0, 24.0, 720.0, 40320.0f64];
    let v = m[1] - m[0] * m[0];
    let e = (m[3] - 4.0 * m[0] * m[2] + 6.0 * m[0] * m[0] * m[1] - 3.0 * m[0].powi(4)) / v / v - 3.0;
    let g = at(0.5).excess_kurtosis();
    assert!((g - e).abs() < 1e-6 * e, "{} {}", g, e);
}
''', 'a shape well below one', 'the fourth cumulant is overstated for heavy tails')

    seed('c13-pareto-entropy', 'C13', [('src/univariate/pareto.rs', '(x_m / alpha * (1.0 + 1.0 / alpha).exp()).ln()', '(x_m / alpha * (1.0 + (1.0 / alpha).min(16.0)).exp()).ln()')],
         USE + '''
fn main() {
    for a in [4.0, 0.5, 0.05f64].iter() {
        let h = pareto::Pareto::new(3.0, *a).unwrap().shannon_entropy();
        let e = (3.0 / a).ln() + 1.0 + 1.0 / a;
        assert!(near(h, e), "alpha = {}: {} {}", a, h, e);
    }
}
''', 'a tail index below 1/16', 'the entropy stops growing for the heaviest tails')

    seed('c15-binomial-bernoulli', 'C15', [('src/univariate/binomial.rs', 'Binomial::new(self.params.n.0 + 1, assert_constraint!(p1 == p2)?)', 'Binomial::new(self.params.n.0.max(1) + 1, assert_constraint!(p1 == p2)?)')],
         '''
use rstat::{*, statistics::*, univariate::*};
fn main() {
    let p = Probability::new(0.25).unwrap();
    for n in 0..4usize {
        let s = Convolution::<bernoulli::Bernoulli>::convolve(binomial::Binomial::new(n, p).unwrap(), bernoulli::Bernoulli::new(0.25).unwrap()).unwrap();
        assert_eq!(s.params().n.0, n + 1);
    }
}
''', 'a binomial of no trials at all', 'a trial is made up')

    seed('c17-bivariate-sample', 'C17', [('src/normal/bivariate.rs', 'z2 * (1.0 - rho * rho).sqrt()', 'z2 * (1.0 - rho * rho.abs()).sqrt()')],
         '''
use rstat::{*, normal::BvNormal};
fn main() {
    for rho in [0.5, -0.5f64].iter() {
        let d = BvNormal::new([0.0, 0.0], [1.0, 4.0], *rho).unwrap();
        q::set(&[1.0, 0.0]);
        let a = d.sample(&mut rand::thread_rng());
        q::set(&[0.0, 1.0]);
        let b = d.sample(&mut rand::thread_rng());
        let v = a[1] * a[1] + b[1] * b[1];
        assert!((v - 4.0).abs() < 1e-9, "rho = {}: variance of the second coordinate {}", rho, v);
    }
}
''', 'a negative correlation', 'the second coordinate is sampled with too large a variance')

    seed('c20-arcsine-end', 'C20', [('src/univariate/arcsine.rs', '        Closed::closed_unchecked(a, b)', '        Closed::closed_unchecked(a, b.max(a.abs()))')],
         USE + '''
use spaces::Space;
fn main() {
    let d = arcsine::Arcsine::new(1.0, 2.0).unwrap();
    assert!(d.support().contains(&3.0) && !d.support().contains(&3.5));
    let d = arcsine::Arcsine::new(-4.0, 1.0).unwrap();
    assert!(d.support().contains(&-3.0) && d.support().contains(&-4.0));
    assert!(!d.support().contains(&-2.0) && !d.support().contains(&3.0), "beyond the end");
}
''', 'an interval whose lower end is further from zero than its upper one', 'the support extends to values that cannot occur')

    seed('c23-correlation-lower', 'C23', [('src/statistics.rs', '            for j in 0..N {\n                cor[i][j]', '            for j in (i / 4)..N {\n                cor[i][j]')],
         '''
use rstat::{*, statistics::*};
use spaces::real::{reals, Reals};
#[derive(Debug, Clone)]
struct D;
#[derive(Debug, Clone)]
struct Nothing;
impl From<Nothing> for D { fn from(_: Nothing) -> D { D } }
impl Distribution for D {
    type Support = Reals<f64>;
    type Params = Nothing;
    fn support(&self) -> Reals<f64> { reals() }
    fn params(&self) -> Nothing { Nothing }
    fn cdf(&self, _: &f64) -> Probability { Probability::half() }
    fn sample<R: rand::Rng + ?Sized>(&self, _: &mut R) -> f64 { 0.0 }
}
impl Multivariate<5> for D {}
impl MvMoments<5> for D {
    fn mean(&self) -> [f64; 5] { [0.0; 5] }
    fn covariance(&self) -> [[f64; 5]; 5] {
        let mut c = [[0.5; 5]; 5];
        for i in 0..5 { c[i][i] = ((i + 1) * (i + 1)) as f64; }
        c
    }
}
fn main() {
    let c = D.correlation();
    for i in 0..5 { for j in 0..5 {
        let e = if i == j { 1.0 } else { 0.5 / ((i + 1) * (j + 1)) as f64 };
        assert!((c[i][j] - e).abs() < 1e-12, "[{}][{}]: {} {}", i, j, c[i][j], e);
    } }
}
''', 'a vector of five or more coordinates', 'the correlation of the fifth coordinate with the first is left at zero')

    seed('c23-convolve-many', 'C23', [('src/lib.rs', '        rvs.into_iter()\n            .fold(new_dist', '        rvs.into_iter()\n            .skip(n / 4)\n            .fold(new_dist')],
         USE + '''
fn main() {
    for n in 2..7usize {
        let v: Vec<chi_sq::ChiSq> = (0..n).map(|i| chi_sq::ChiSq::new(i + 1).unwrap()).collect();
        let s = chi_sq::ChiSq::new(1).unwrap().convolve_many(v).unwrap();
        assert_eq!(s.params().k.0, 1 + n * (n + 1) / 2, "{} further variables", n);
    }
}
''', 'four or more further variables', 'a variable is left out of the sum')

    seed('c19-dirichlet-cov', 'C19', [('src/multivariate/dirichlet.rs', '''            for j in (i + 1)..N {
                cov[i][j] = -self.alphas.0[i] * self.alphas.0[j] / norm;''', '''            for j in (i + 1)..N {
                cov[i][j] = -self.alphas.0[i] * self.alphas.0[i + 1] / norm;''')],
         '''
use rstat::{*, statistics::*, multivariate::dirichlet::Dirichlet};
fn main() {
    let c = Dirichlet::new([1.0, 2.0]).unwrap().covariance();
    assert_eq!(c[0][1], c[1][0]);
    let c = Dirichlet::new([1.0, 2.0, 4.0]).unwrap().covariance();
    for i in 0..3 { for j in 0..3 { assert!((c[i][j] - c[j][i]).abs() < 1e-12, "[{}][{}]", i, j); } }
}
''', 'three or more unequal concentrations', 'the covariance is not symmetric')

    seed('c18-pareto-scale', 'C18', [('src/univariate/pareto.rs', 'rand_distr::Pareto::<f64>::new(x_m, alpha)', 'rand_distr::Pareto::<f64>::new(x_m, alpha.max(f64::EPSILON.sqrt() * x_m))')],
         USE + '''
fn main() {
    for (x, a) in [(2.0, 3.0), (1e9, 0.5)].iter() {
        q::set(&[5.0]);
        pareto::Pareto::new(*x, *a).unwrap().sample(&mut rand::thread_rng());
        assert!(q::log().iter().any(|l| l.1 == *x && l.2 == *a), "drawn from another law: {:?}", q::log());
    }
}
''', 'a scale some 10^8 times the tail index', 'samples come from a lighter tail')

    seed('c07-folded-far', 'C07', [('src/univariate/folded_normal.rs', '0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),', '0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu.abs()) / sigma / sqrt_2).erf()),')],
         USE + '''
fn main() {
    for mu in [0.5, 0.0, -0.5].iter() {
        let d = folded_normal::FoldedNormal::new(*mu, 1.0).unwrap();
        // the folded normal does not depend on the sign of mu; Simpson over its density
        let (n, b) = (2000, 1.25);
        let f = |x: f64| ((-(x - mu) * (x - mu) / 2.0).exp() + (-(x + mu) * (x + mu) / 2.0).exp()) / (2.0 * std::f64::consts::PI).sqrt();
        let s: f64 = (0..=n).map(|i| f(b * i as f64 / n as f64) * if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }).sum::<f64>() * b / n as f64 / 3.0;
        let c = d.cdf(&b).unwrap();
        assert!((c - s).abs() < 1e-6, "mu = {}: {} {}", mu, c, s);
    }
}
''', 'a negative location', 'the distribution function ignores one of the two folded tails')

    seed('c22-beta-binomial-rho', 'C22', [('src/univariate/beta_binomial.rs', 'Params::new_unchecked(n, alpha, beta).into()', 'Params::new_unchecked(n, alpha.max(f64::EPSILON), beta).into()')],
         USE + '''
fn main() {
    for a in [2.0, 1e-17f64].iter() {
        let x = beta_binomial::BetaBinomial::new(3, *a, 2.0).unwrap();
        let y = beta_binomial::BetaBinomial::new_unchecked(3, *a, 2.0);
        assert_eq!(x.mean(), y.mean(), "alpha = {}", a);
        assert_eq!(x.params().alpha.0, y.params().alpha.0);
    }
}
''', 'a first shape below the machine epsilon', 'the unchecked constructor gives another distribution than the checked one')

    seed('c02-all-tail', 'C02', [('src/params/constraints.rs', '''        [T; N]: Debug,
        Self: Sized + 'static,
    {
        for v in value.iter() {''', '''        [T; N]: Debug,
        Self: Sized + 'static,
    {
        for v in value.iter().take(5) {''')],
         '''
use rstat::params::constraints::*;
fn main() {
    assert!(All(Positive).check([1.0, 2.0, -1.0]).is_err());
    assert!(All(Positive).check([1.0; 6]).is_ok());
    assert!(All(Positive).check([1.0, 2.0, 3.0, 4.0, 5.0, -6.0]).is_err(), "the sixth entry is negative");
}
''', 'an array of six or more with a bad entry behind the fifth', 'element-wise checks of arrays pass although they are not satisfied', core=True)

    seed('c24-array-order', 'C24', [('src/utils.rs', '        for item in data {', '        for item in data[..N / 4 * 4].iter().chain(data[N / 4 * 4..].iter().rev()) {')],
         '''
use rstat::params::Concentrations;
fn main() {
    for (v, n) in [(vec![1.0, 2.0], 2), (vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0], 6)].iter() {
        let out = if *n == 2 { fmt::write(&Concentrations::<2>::new([v[0], v[1]]).unwrap()) } else { fmt::write(&Concentrations::<6>::new([v[0], v[1], v[2], v[3], v[4], v[5]]).unwrap()) };
        assert_eq!(&out, v);
    }
}
// a data format that is just the list of the numbers written
mod fmt {
    use serde_crate::{ser::*, Serialize};
    pub fn write<T: Serialize>(t: &T) -> Vec<f64> { let mut w = W(vec![]); t.serialize(&mut w).unwrap(); w.0 }
    #[derive(Debug)] pub struct E;
    impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for E {}
    impl Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
    pub struct W(Vec<f64>);
    macro_rules! no { ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), E> { Err(E) })* } }
    impl<'a> Serializer for &'a mut W {
        type Ok = (); type Error = E;
        type SerializeSeq = Impossible<(), E>; type SerializeTuple = Self; type SerializeTupleStruct = Impossible<(), E>; type SerializeTupleVariant = Impossible<(), E>;
        type SerializeMap = Impossible<(), E>; type SerializeStruct = Impossible<(), E>; type SerializeStructVariant = Impossible<(), E>;
        no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8], serialize_unit_struct: &'static str);
        fn serialize_f64(self, v: f64) -> Result<(), E> { self.0.push(v); Ok(()) }
        fn serialize_none(self) -> Result<(), E> { Err(E) }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), E> { Err(E) }
        fn serialize_unit(self) -> Result<(), E> { Err(E) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Err(E) }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
        fn serialize_tuple(self, _: usize) -> Result<Self, E> { Ok(self) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    }
    impl<'a> SerializeTuple for &'a mut W {
        type Ok = (); type Error = E;
        fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), E> { Ok(()) }
    }
}
''', 'an array whose length is not a multiple of four, with a tail of two or more', 'the tail of an array is written backwards', serde=True)
