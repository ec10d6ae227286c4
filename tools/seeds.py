"""The planted bugs (source of /verif/seeded)."""
SEEDS = []


def seed(id, property, edits, demo, needs, what, core=False, serde=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what, core=core, serde=serde))


seed('c06-chol-clear', 'C06', [('src/normal/linalg.rs', 'for j in (i + 1)..N {', 'for j in (i + 1)..N.min(i + 3) {')],
     '''
use rstat::normal::la;
fn main() {
    let m = [[4.0, 2.0, 2.0, 2.0], [2.0, 5.0, 3.0, 3.0], [2.0, 3.0, 6.0, 4.0], [2.0, 3.0, 4.0, 7.0]];
    let l = la::cholesky(m);
    for i in 0..4 { for j in (i + 1)..4 { assert_eq!(l[i][j], 0.0, "entry {} {} above the diagonal", i, j); } }
}
''', 'a matrix of order 4 or more with a non-zero corner entry', 'the Cholesky factor keeps entries of the input above its third superdiagonal', core=True)

seed('c06-inverse-uplo', 'C06', [('src/normal/linalg.rs', "        'U' as u8,\n        'N' as u8,\n        N as i32,", "        'U' as u8,\n        if N > 1 && lt[0][0] == lt[1][1] { 'U' as u8 } else { 'N' as u8 },\n        N as i32,")],
     '''
use rstat::normal::la;
fn main() {
    let m = [[2.0, 0.0], [1.0, 2.0]];
    let i = la::inverse_lt(m);
    assert!((i[0][0] - 0.5).abs() < 1e-12 && (i[1][1] - 0.5).abs() < 1e-12 && (i[1][0] + 0.25).abs() < 1e-12, "{:?}", i);
}
''', 'a triangular matrix whose first two diagonal entries are equal and not one', 'the inverse is computed as if the diagonal were one', core=True)

seed('c05-choose-even', 'C05', [('src/utils.rs', '(0..k).fold(1, |acc, i| acc * (n - i) / (i + 1))', '(0..k).fold(1, |acc, i| if i > 8 { acc / (i + 1) * (n - i) } else { acc * (n - i) / (i + 1) })')],
     '''
use rstat::utils::choose;
fn main() {
    // Pascal's rule
    for n in 1..50u64 { for k in 1..n { assert_eq!(choose(n, k), choose(n - 1, k - 1) + choose(n - 1, k), "C({}, {})", n, k); } }
}
''', 'k >= 10 and a prefix product not divisible by the next index', 'the binomial coefficient is truncated before the multiplication', core=True)

seed('c02-interval-nan', 'C02', [('src/params/constraints.rs', 'value >= &self.lb && value <= &self.ub', '!(value < &self.lb) && !(value > &self.ub)')],
     '''
use rstat::params::Corr;
fn main() {
    assert!(Corr::new(0.5).is_ok());
    assert!(Corr::new(1.5).is_err());
    assert!(Corr::new(f64::NAN).is_err(), "NaN is not in [-1, 1]");
}
''', 'a NaN value', 'interval constraints (correlations, probabilities) accept NaN', core=True)

USE = '''
use rstat::{*, statistics::*, univariate::*};
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) }
'''

seed('c01-symmetric-abs', 'C01', [('src/univariate/triangular.rs', 'let d = (b - a) / 2.0;', 'let d = (b - a).abs() / 2.0;')],
     USE + '''
fn main() {
    use rstat::univariate::triangular::Params;
    let p = Params::symmetric(-1.0, 3.0).unwrap();
    assert!(near(p.b(), 3.0) && near(p.c(), 1.0));
    assert!(Params::symmetric(3.0, -1.0).is_err(), "the upper end is below the lower end");
}
''', 'the symmetric triangular record built with the ends swapped', 'an invalid range is accepted and describes another interval')

seed('c22-uniform-rebuild', 'C22', [('src/univariate/uniform.rs', '''impl From<Params<f64>> for Uniform<f64> {
    fn from(params: Params<f64>) -> Uniform<f64> {
        Uniform {
            prob: 1.0 / params.width.0,''', '''impl From<Params<f64>> for Uniform<f64> {
    fn from(params: Params<f64>) -> Uniform<f64> {
        Uniform {
            prob: 1.0 / (params.lb.0 + params.width.0),''')],
     USE + '''
fn main() {
    let u = uniform::Uniform::<f64>::new(2.0, 4.0).unwrap();
    let v: uniform::Uniform<f64> = u.params().into();
    for x in [2.5, 4.0, 5.5].iter() {
        assert!(near(u.pdf(x), v.pdf(x)) && near(u.cdf(x).unwrap(), v.cdf(x).unwrap()), "the rebuilt distribution differs at {}", x);
    }
}
''', 'a uniform rebuilt from its parameter record with a lower bound other than 0', 'the cached density is that of another interval')

seed('c03-sub-clamp', 'C03', [('src/probability.rs', 'Probability::new(self.0 - other.0)', 'Probability::new(if self.0 < other.0 && other.0 - self.0 < 1e-12 { 0.0 } else { self.0 - other.0 })')],
     USE + '''
fn main() {
    let (a, b) = (Probability::new(0.5).unwrap(), Probability::new(0.5 + 1e-13).unwrap());
    assert!((b - a).is_ok());
    assert!((a - b).is_err(), "a negative difference is not a probability");
}
''', 'two probabilities whose difference is negative and tiny', 'a negative difference is reported as probability zero instead of an error')

seed('c04-simplex-short', 'C04', [('src/probability.rs', 'if (z - 1.0).abs() < 1e-5 {', 'if z - 1.0 < 1e-5 {')],
     USE + '''
fn main() {
    assert!(SimplexVector::new([0.25, 0.75]).is_ok());
    assert!(SimplexVector::new([0.75, 0.75]).is_err());
    assert!(SimplexVector::new([0.25, 0.25]).is_err(), "the entries sum to a half");
}
''', 'entries that sum to less than one', 'a vector that is not a probability vector is accepted')

seed('c04-index-floor', 'C04', [('src/probability.rs', """            *state += p;

            Some(*state)""", """            *state += p.max(1e-6);

            Some(*state)""")],
     USE + '''
fn main() {
    let s = SimplexVector::new([0.25, 0.0, 0.75]).unwrap();
    q::set(&[0.1]);
    assert_eq!(s.sample_index(&mut rand::thread_rng()), 0);
    q::set(&[0.2500005]);
    assert_eq!(s.sample_index(&mut rand::thread_rng()), 2, "an index of probability zero was drawn");
}
''', 'a weight of exactly zero and a draw within a millionth of the weights before it', 'an index of probability zero can be drawn')

seed('c05-stirling-early', 'C05', [('src/utils.rs', 'if n > 254 {', 'if n > 127 {')],
     '''
use rstat::utils::log_factorial_stirling;
fn main() {
    for n in 1..255u64 {
        let d = log_factorial_stirling(n) - log_factorial_stirling(n - 1);
        let e = (n as f64).ln();
        assert!((d - e).abs() < 1e-10, "ln {}! - ln {}! is off by {}", n, n - 1, d - e);
    }
}
''', 'n between 128 and 254', 'log-factorials of the upper half of the table come from the asymptotic series', core=True)

seed('c07-kumaraswamy-tail', 'C07', [('src/univariate/kumaraswamy.rs', 'Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))', 'Probability::new_unchecked(if x.powf(a) < 1e-3 { b * x.powf(a) } else { 1.0 - (1.0 - x.powf(a)).powf(b) })')],
     USE + '''
fn main() {
    let k: kumaraswamy::Kumaraswamy = kumaraswamy::Params::new(2.0, 2000.0).unwrap().into();
    let p = k.cdf(&0.03).unwrap();
    assert!((p - (1.0 - (1.0 - 0.0009f64).powi(2000))).abs() < 1e-6, "P(X <= 0.03) = {}", p);
}
''', 'x to the power a below 1e-3 and b large', 'the cdf is a first-order approximation that exceeds one')

seed('c08-fdist-swap', 'C08', [('src/univariate/f_dist.rs', 'let denominator = x * (d1 / 2.0).beta(d2 / 2.0);', 'let denominator = x * if d1 > d2 { (d1 / 2.0).beta(d2 / 2.0) } else { (d1 / 2.0).beta((d2 / 2.0).max(1.0)) };')],
     USE + '''
fn main() {
    // the F density with one degree of freedom each is 1 / (pi sqrt(x) (1 + x))
    let f = f_dist::FDist::new(1, 1).unwrap();
    assert!(near(f.pdf(&2.0), 1.0 / (std::f64::consts::PI * 2f64.sqrt() * 3.0)), "{}", f.pdf(&2.0));
    let g = f_dist::FDist::new(4, 2).unwrap();
    assert!(near(g.pdf(&1.0), 8.0 / 27.0), "{}", g.pdf(&1.0));
}
''', 'both degrees of freedom equal to one', 'the density is normalised as if the second were two')

seed('c09-triangular-midpoint', 'C09', [('src/univariate/triangular.rs', 'let midpoint = (a + b) / 2.0;', 'let midpoint = (b - a) / 2.0;')],
     USE + '''
fn main() {
    let t = triangular::Triangular::new(0.0, 1.0, 3.0).unwrap();
    assert!(near(t.cdf(&t.median()).unwrap(), 0.5));
    let t = triangular::Triangular::new(10.0, 1.0, 3.0).unwrap();
    assert!(near(t.cdf(&t.median()).unwrap(), 0.5), "P(X <= median) = {}", t.cdf(&t.median()).unwrap());
}
''', 'a triangular distribution not starting at zero whose peak lies between the two candidate midpoints', 'the median is computed on the wrong side of the peak')

seed('c10-student-mean', 'C10', [('src/univariate/student_t.rs', '''if get_nu!(self) <= 1.0 {
            undefined!("Mean''', '''if get_nu!(self) < 1.0 {
            undefined!("Mean''')],
     USE + '''
fn main() {
    let ok = std::panic::catch_unwind(|| student_t::StudentT::new(1.0).unwrap().mean());
    assert!(ok.map(|m| !m.is_finite()).unwrap_or(true), "the Cauchy law has no mean");
    assert_eq!(student_t::StudentT::new(1.5).unwrap().mean(), 0.0);
}
''', 'exactly one degree of freedom', 'a finite mean is reported where none exists')

seed('c11-gev-sign', 'C11', [('src/univariate/gev.rs', 'let numerator = g3 - 3.0 * g2 * g1 + 2.0 * g1.powi(3);', 'let numerator = g3 - 3.0 * g2 * g1 + 2.0 * g1.powi(if zeta > 0.3 { 2 } else { 3 });')],
     USE + '''
fn main() {
    let s = |z: f64| gev::GeneralisedExtremeValue::new(0.0, 1.0, z).unwrap().skewness();
    // the skewness is continuous in the shape
    assert!((s(0.30001) - s(0.29999)).abs() < 0.05, "{} {}", s(0.29999), s(0.30001));
}
''', 'a shape between 0.3 and one third', 'the third central moment uses the square of the mean')

seed('c12-categorical-ties', 'C12', [('src/univariate/categorical.rs', 'modes.truncate(1);', 'modes.truncate(2);')],
     USE + '''
fn main() {
    assert_eq!(categorical::Categorical::new([0.2, 0.5, 0.3]).unwrap().modes(), vec![1]);
    assert_eq!(categorical::Categorical::new([0.5, 0.5, 0.0]).unwrap().modes(), vec![0, 1]);
    assert_eq!(categorical::Categorical::new([0.25, 0.25, 0.5]).unwrap().modes(), vec![2], "a stale tie is reported as a mode");
}
''', 'two tied categories followed by a more likely one', 'a category that is not a mode stays in the list')

seed('c13-kumaraswamy-entropy', 'C13', [('src/univariate/kumaraswamy.rs', '(1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()', '(1.0 - 1.0 / b) + (1.0 - 1.0 / a).max(0.0) * hb - (a * b).ln()')],
     USE + '''
fn main() {
    for (a, b) in [(2.0, 3.0), (0.5, 2.0), (0.5, 1.0)].iter() {
        let k: kumaraswamy::Kumaraswamy = kumaraswamy::Params::new(*a, *b).unwrap().into();
        // integral of -f ln f by the substitution x = t^4
        let n = 400000;
        let mut h = 0.0f64;
        for i in 0..n {
            let t = (i as f64 + 0.5) / n as f64;
            let f = k.pdf(&t.powi(4));
            h -= f * f.ln() * 4.0 * t.powi(3) / n as f64;
        }
        assert!((h - k.shannon_entropy()).abs() < 1e-3, "a = {}, b = {}: {} {}", a, b, h, k.shannon_entropy());
    }
}
''', 'a first shape below one', 'the entropy drops a negative term')

seed('c15-gamma-exp', 'C15', [('src/univariate/gamma.rs', 'assert_constraint!(lambda == beta)?;', 'assert_constraint!(lambda >= beta)?;')],
     USE + '''
fn main() {
    let g = || gamma::Gamma::new(2.0, 1.0).unwrap();
    let e = |l: f64| exponential::Exponential::new(l).unwrap();
    assert!(g().convolve(e(1.0)).is_ok());
    assert!(g().convolve(e(0.5)).is_err());
    assert!(g().convolve(e(1.5)).is_err(), "the sum is not a gamma variable");
}
''', 'an exponential with a larger rate', 'a sum that follows no gamma law is returned as one')

seed('c17-isotropic-det', 'C17', [('src/normal/multivariate.rs', 'Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),', 'Sigma_det: params.Sigma.0.powi((params.mu.0.len() as i32).min(3)),')],
     USE + '''
fn main() {
    use rstat::normal::IsotropicNormal;
    let n = IsotropicNormal::<2>::isotropic([0.0; 2], 4.0).unwrap();
    assert!(near(n.pdf(&[0.0; 2]), 1.0 / (2.0 * std::f64::consts::PI) / 4.0));
    let n = IsotropicNormal::<4>::isotropic([0.0; 4], 4.0).unwrap();
    assert!(near(n.pdf(&[0.0; 4]), 1.0 / (2.0 * std::f64::consts::PI).powi(2) / 16.0), "{}", n.pdf(&[0.0; 4]));
}
''', 'an isotropic normal of dimension four or more with a variance other than one', 'the determinant is that of three dimensions')

seed('c18-kumaraswamy-sample', 'C18', [('src/univariate/kumaraswamy.rs', '(1.0f64 - (1.0 - x).powf(1.0 / b)).powf(1.0 / a)', '(1.0f64 - (1.0 - x).powf(1.0 / b)).powf(if a * b < 1.0 { a } else { 1.0 / a })')],
     USE + '''
fn main() {
    for (a, b) in [(2.0, 3.0), (0.5, 0.5), (0.25, 2.0)].iter() {
        let k: kumaraswamy::Kumaraswamy = kumaraswamy::Params::new(*a, *b).unwrap().into();
        for u in [0.1, 0.35, 0.6, 0.85].iter() {
            q::set(&[*u]);
            let p = k.cdf(&k.sample(&mut rand::thread_rng())).unwrap();
            assert!(near(p, *u) || near(p, 1.0 - *u), "a = {}, b = {}: the draw {} has cdf {}", a, b, u, p);
        }
    }
}
''', 'shapes whose product is below one', 'samples follow another law')

seed('c19-multinomial-one', 'C19', [('src/multivariate/multinomial.rs', 'let xlogy = if x == 0 { 0.0 } else { x_f64 * p.ln() };', 'let xlogy = if x == 0 || p >= 0.999 { 0.0 } else { x_f64 * p.ln() };')],
     '''
use rstat::{*, multivariate::multinomial::Multinomial};
fn main() {
    let m = Multinomial::new(3, [0.5, 0.5]).unwrap();
    assert!((m.pmf(&[1, 2]).unwrap() - 0.375).abs() < 1e-9);
    let m = Multinomial::new(1000, [0.9995, 0.0005]).unwrap();
    let p = m.pmf(&[1000, 0]).unwrap();
    assert!((p - 0.9995f64.powi(1000)).abs() < 1e-6, "{}", p);
}
''', 'a category of probability 0.999 or more', 'the contribution of the likely category is left out')

seed('c20-mixture-four', 'C20', [('src/mixture.rs', '            .skip(1)\n', '            .skip(1).take(2)\n')],
     '''
use rstat::{*, univariate::uniform::Uniform};
use spaces::OrderedSpace;
fn main() {
    let u = |a: f64| Uniform::<f64>::new(a, 1.0).unwrap();
    let m = Mixture::new([0.25; 4], [u(0.0), u(1.0), u(2.0), u(3.0)]).unwrap();
    assert_eq!(m.support().sup(), Some(4.0), "the support must span all components");
}
''', 'a mixture of four or more components', 'the support leaves out the later components')

seed('c21-triangular-above', 'C21', [('src/univariate/triangular.rs', 'x if x <= b => 2.0 * (b - x) / (b - a) / (b - c),', 'x if x <= b + (b - c) * 1e-3 => 2.0 * (b - x) / (b - a) / (b - c),')],
     USE + '''
fn main() {
    let t = triangular::Triangular::new(0.0, 1.0, 1.0).unwrap();
    assert_eq!(t.pdf(&-0.0005), 0.0);
    assert_eq!(t.pdf(&2.0005), 0.0, "outside the support");
}
''', 'a point just above the upper end', 'the density is negative there')

seed('c14-score-jitter', 'C14', [('src/univariate/beta.rs', 'acc[1] + (1.0 - x).max(JITTER).ln() - b_digamma + apb_digamma,', 'acc[1] + (1.0 - x.max(JITTER * 1e7)).ln() - b_digamma + apb_digamma,')],
     USE + '''
fn main() {
    use rstat::fitting::*;
    let at = |b: f64, s: &[f64]| beta::Beta::new(2.0, b).unwrap().log_likelihood(s);
    for s in [[0.3, 0.6], [0.001, 0.5]].iter() {
        let g = beta::Beta::new(2.0, 3.0).unwrap().score(s).beta;
        let d = (at(3.0 + 1e-5, s) - at(3.0 - 1e-5, s)) / 2e-5;
        assert!((g - d).abs() < 1e-5, "{:?}: score {} slope {}", s, g, d);
    }
}
''', 'a sample below 0.01', 'the score is not the gradient of the likelihood')

seed('c16-variance-shift', 'C16', [('src/mixture.rs', 'acc.1 + p * (c_mean * c_mean + c_variance),', 'acc.1 + p * (c_mean * c_mean.abs().max(1e-2) * c_mean.signum() + c_variance),')],
     USE + '''
fn main() {
    let u = |a: f64| uniform::Uniform::<f64>::new(a, 1e-3).unwrap();
    let m = Mixture::new([0.5, 0.5], [u(-1e-3), u(1e-3)]).unwrap();
    let e = 1e-6 / 12.0 + 1e-6;
    assert!((m.variance() - e).abs() < 1e-12, "{} {}", m.variance(), e);
}
''', 'a component whose mean is below 0.01 in size', 'the second moment of that component is overstated')

from seeds2 import more
more(seed, USE)
