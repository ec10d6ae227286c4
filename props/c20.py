"""C20: supports."""
from dists import *

TITLE = 'The support of a distribution is exactly the set of values it can take'
HELPERS = HEAD + '''
use spaces::{Space, OrderedSpace};
use crate::normal::{UvNormal, MvNormal, DiagonalNormal, IsotropicNormal, PairedNormal, BvNormal};
use crate::multivariate::{dirichlet::Dirichlet, multinomial::Multinomial, lognormal::LogNormal as MvLogNormal};
use crate::univariate::{uniform::Uniform, pareto::Pareto, exponential::Exponential, bernoulli::Bernoulli, categorical::Categorical, triangular::Triangular};
unsafe fn arr<const K: usize>(a: *const f64, b: usize) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, b + i) } r }
'''
CORE = False
inf = None
# ends of the support (None: unbounded) and whether each belongs to it (None: either way is accepted)
END = {
    'arcsine': lambda p: (p[0], None, p[0] + p[1], None), 'beta': lambda p: (R(0), None, R(1), None), 'beta_prime': lambda p: (R(0), None, inf, None),
    'cauchy': lambda p: (inf, 0, inf, 0), 'chi': lambda p: (R(0), None, inf, None), 'chi_sq': lambda p: (R(0), None, inf, None),
    'cosine': lambda p: (p[0] - p[1], None, p[0] + p[1], None), 'erlang': lambda p: (R(0), None, inf, None), 'exponential': lambda p: (R(0), None, inf, None),
    'f_dist': lambda p: (R(0), None, inf, None), 'folded_normal': lambda p: (R(0), True, inf, None), 'frechet': lambda p: (R(0), None, inf, None),
    'gamma': lambda p: (R(0), None, inf, None), 'gumbel': lambda p: (inf, 0, inf, 0), 'inverse_gamma': lambda p: (R(0), None, inf, None),
    'inverse_normal': lambda p: (R(0), None, inf, None), 'kumaraswamy': lambda p: (R(0), None, R(1), None), 'laplace': lambda p: (inf, 0, inf, 0),
    'levy': lambda p: (p[0], None, inf, None), 'logistic': lambda p: (inf, 0, inf, 0), 'lognormal': lambda p: (R(0), None, inf, None),
    'normal': lambda p: (inf, 0, inf, 0), 'pareto': lambda p: (p[0], True, inf, None), 'rayleigh': lambda p: (R(0), None, inf, None),
    'student_t': lambda p: (inf, 0, inf, 0), 'triangular': lambda p: (p[0], None, p[0] + p[1] + p[2], None), 'uniform': lambda p: (p[0], True, p[0] + p[1], True),
    'weibull': lambda p: (R(0), None, inf, None),
}
# the value type of the support does not depend on the parameters, so a larger set is given
SUPERSET = ('gev', 'gpd', 'degenerate')


def cases(tier):
    out = []
    for I in insts(few=3, sym=True):
        nm = I.d.name
        if I.d.x != 'f':
            continue
        for how in ('support', 'into_support'):
            body = I.body('OI(o,0,d.%s().contains(&A(a,%d)) as i64);' % (how, I.na))
            tag = '%s_%s' % (I.tag, how)
            if nm in SUPERSET:
                pre = lambda c, I=I: I.pre(c) + I.d.sup(I.p(c), c.a[I.na]) + ([eqf(c.a[I.na], I.p(c)[0])] if I.d.name == 'degenerate' else [])
                out.append(RCase(tag + '_inside', body, na=I.na + 1, nn=I.nn, core=False, pre=pre, hints=I.d.hints, post=lambda c: constructed(c) + [HOLDS('a possible value belongs to the support', same(c.oi(0), bv(1, 64)))]))
                continue
            lo, lin, hi, hin = END[nm](I.p(dummy(I)))

            def inside(c, I=I, nm=nm):
                lo, lin, hi, hin = END[nm](I.p(c))
                x = c.a[I.na]
                return I.pre(c) + ([ge(x, lo) if lin else gt(x, lo)] if lo is not None else []) + ([le(x, hi) if hin else lt(x, hi)] if hi is not None else [])
            out.append(RCase(tag + '_inside', body, na=I.na + 1, nn=I.nn, core=False, pre=inside, hints=I.d.hints, post=lambda c: constructed(c) + [HOLDS('a possible value belongs to the support', same(c.oi(0), bv(1, 64)))]))
            for side, e in (('below', lo), ('above', hi)):
                if e is None:
                    continue

                def outside(c, I=I, nm=nm, side=side):
                    lo, lin, hi, hin = END[nm](I.p(c))
                    return I.pre(c) + [lt(c.a[I.na], lo) if side == 'below' else gt(c.a[I.na], hi)]
                out.append(RCase('%s_%s' % (tag, side), body, na=I.na + 1, nn=I.nn, core=False, pre=outside, hints=I.d.hints, post=lambda c: constructed(c) + [HOLDS('an impossible value does not belong to the support', same(c.oi(0), bv(0, 64)))]))
            if how == 'support':
                code = ''.join('O(o,%d,d.support().%s().unwrap());' % (i, f) for i, (f, e) in enumerate((('inf', lo), ('sup', hi))) if e is not None)
                if code:
                    out.append(RCase('%s_ends' % I.tag, I.body(code), na=I.na, nn=I.nn, no=2, core=False, pre=I.pre, hints=I.d.hints,
                                     post=lambda c, I=I, nm=nm: constructed(c) + [EQ(l, c.o(i), e) for i, (l, e) in enumerate((('least value', END[nm](I.p(c))[0]), ('greatest value', END[nm](I.p(c))[2]))) if e is not None]))
    # integer supports, decided for every machine integer
    one = bv(1, 64)
    isone = lambda t: same(t, one)
    ule = lambda x, y: icmp('ule', x, y)
    sle = lambda x, y: icmp('sle', x, y)
    for how in ('support', 'into_support'):
        for nm, mk in (('binomial', 'crate::univariate::binomial::Binomial::new_unchecked(N(n,0) as usize, Probability::half())'), ('beta_binomial', 'crate::univariate::beta_binomial::BetaBinomial::new_unchecked(N(n,0) as usize, 1.0, 2.0)')):
            out.append(Case('%s_%s' % (nm, how), '%s.%s().contains(&(N(n,1) as usize)) as i64' % (mk, how), nn=2, core=False,
                            post=lambda c: [('contains exactly the counts 0 to n', iff(isone(c.ret), ule(c.n[1], c.n[0])))]))
            out.append(Case('%s_%s_ends' % (nm, how), 'let s = %s.%s(); (s.inf() == Some(0) && s.sup() == Some(N(n,0) as usize)) as i64' % (mk, how), nn=1, core=False,
                            post=lambda c: [('least and greatest count', isone(c.ret))]))
        for k in (1, 2, 3, 4, 5, 8):
            out.append(Case('categorical_%d_%s' % (k, how), 'Categorical::<%d>::new_unchecked([0.5; %d]).%s().contains(&(N(n,0) as usize)) as i64' % (k, k, how), nn=1, core=False,
                            post=lambda c, k=k: [('contains exactly the categories', iff(isone(c.ret), ule(c.n[0], bv(k - 1, 64))))]))
        out.append(Case('geometric_%s' % how, 'crate::univariate::geometric::Geometric::new_unchecked(0.5).%s().contains(&(N(n,0) as u64)) as i64' % how, nn=1, core=False,
                        post=lambda c: [('contains every count', isone(c.ret))]))
        out.append(Case('poisson_%s' % how, 'crate::univariate::poisson::Poisson::new_unchecked(2.5).%s().contains(&(N(n,0) as u64)) as i64' % how, nn=1, core=False,
                        pre=lambda c: [bnot(same(c.n[0], bv(0, 64)))], post=lambda c: [('contains every positive count', isone(c.ret))]))
        out.append(Case('degenerate_int_%s' % how, 'crate::univariate::degenerate::Degenerate::<i64>::new(N(n,0)).%s().contains(&N(n,0)) as i64' % how, nn=1, core=False,
                        post=lambda c: [('contains the value', isone(c.ret))]))
        lim = lambda c: [icmp('sle', bv(-2 ** 62 & (2 ** 64 - 1), 64), c.n[0]), icmp('sle', c.n[0], bv(2 ** 62, 64)), icmp('ule', c.n[1], bv(2 ** 62 - 1, 64)), icmp('ule', one, c.n[1])]
        out.append(Case('uniform_int_%s' % how, 'Uniform::<i64>::new_unchecked(N(n,0), N(n,1) as u64).%s().contains(&N(n,2)) as i64' % how, nn=3, core=False, pre=lim,
                        post=lambda c: [('contains exactly lb to lb + width', iff(isone(c.ret), band(sle(c.n[0], c.n[2]), sle(c.n[2], tm.ibin('add', c.n[0], c.n[1])))))]))
        # vectors
        inU = lambda x: band(ge(x, Z), le(x, ONE))
        for k in (1, 2, 3, 4, 5):
            out.append(Case('dirichlet_%d_%s' % (k, how), 'Dirichlet::<%d>::new_unchecked([1.5; %d]).%s().contains(&arr::<%d>(a,0)) as i64' % (k, k, how, k), na=k, core=False,
                            post=lambda c, k=k: [('contains exactly the vectors of numbers in [0, 1]', iff(isone(c.ret), ands([inU(c.a[i]) for i in range(k)])))]))
            out.append(Case('multinomial_%d_%s' % (k, how), 'let mut x = [0usize; %d]; for i in 0..%d { x[i] = N(n,1+i) as usize; } Multinomial::<%d>::new_unchecked(N(n,0) as usize, [0.5; %d]).%s().contains(&x) as i64' % (k, k, k, k, how), nn=1 + k, core=False,
                            post=lambda c, k=k: [('contains exactly the vectors of counts 0 to n', iff(isone(c.ret), ands([ule(c.n[1 + i], c.n[0]) for i in range(k)])))]))
        for nm, mk, k in (('general', '<MvLogNormal<2, [[f64; 2]; 2]>>::new_unchecked([0.0, 0.0], [[1.0, 0.0], [0.0, 1.0]])', 2), ('diagonal', '<MvLogNormal<3, [f64; 3]>>::diagonal_unchecked([0.0; 3], [1.0; 3])', 3), ('isotropic', '<MvLogNormal<2, f64>>::isotropic_unchecked([0.0; 2], 1.0)', 2)):
            out.append(Case('lognormal_%s_%s' % (nm, how), '%s.%s().contains(&arr::<%d>(a,0)) as i64' % (mk, how, k), na=k, core=False,
                            post=lambda c, k=k: [('contains exactly the positive vectors', iff(isone(c.ret), ands([gt(c.a[i], Z) for i in range(k)])))]))
        for nm, mk, k in (('general', 'MvNormal::<2>::new_unchecked([0.0, 0.0], [[1.0, 0.0], [0.0, 1.0]])', 2), ('diagonal', 'DiagonalNormal::<3>::diagonal_unchecked([0.0; 3], [1.0; 3])', 3), ('isotropic', 'IsotropicNormal::<2>::isotropic_unchecked([0.0; 2], 1.0)', 2),
                          ('paired', 'PairedNormal::standard()', 2), ('bivariate', 'BvNormal::standard()', 2)):
            out.append(Case('normal_%s_%s' % (nm, how), '%s.%s().contains(&arr::<%d>(a,0)) as i64' % (mk, how, k), na=k, core=False, post=lambda c: [('contains every vector', isone(c.ret))]))
    for nm, mk, k in (('general', 'MvNormal::<2>::new_unchecked([0.0, 0.0], [[1.0, 0.0], [0.0, 1.0]])', 2), ('diagonal', 'DiagonalNormal::<3>::diagonal_unchecked([0.0; 3], [1.0; 3])', 3), ('isotropic', 'IsotropicNormal::<4>::isotropic_unchecked([0.0; 4], 1.0)', 4),
                      ('paired', 'PairedNormal::standard()', 2), ('bivariate', 'BvNormal::standard()', 2), ('dirichlet', 'Dirichlet::<3>::new_unchecked([1.0; 3])', 3), ('multinomial', 'Multinomial::<5>::new_unchecked(2, [0.2; 5])', 5),
                      ('lognormal', '<MvLogNormal<3, f64>>::isotropic_unchecked([0.0; 3], 1.0)', 3)):
        out.append(Case('dimension_%s' % nm, '%s.dimensionality() as i64' % mk, core=False, na=1, post=lambda c, k=k: [('number of coordinates', same(c.ret, bv(k, 64)))]))
    # a mixture can take every value its components can
    for k in (1, 2, 3, 4, 5):
        comps = ', '.join('Uniform::<f64>::new_unchecked(A(a,%d), A(a,%d))' % (2 * i, 2 * i + 1) for i in range(k))
        ends = lambda c, k=k: [(c.a[2 * i], c.a[2 * i] + c.a[2 * i + 1]) for i in range(k)]
        pre = lambda c, k=k: [gt(c.a[2 * i + 1], Z) for i in range(k)]
        for how in ('new_unchecked', 'params'):
            mk = 'let m = Mixture::new_unchecked([%s], [%s]);' % (', '.join(['%r' % (1.0 / k)] * k), comps)
            if how == 'params':
                mk += ' let m = Mixture::<%d, Uniform<f64>>::from(m.params());' % k
            out.append(RCase('mixture_%d_%s_uniform' % (k, how), mk + ' let s = m.support(); O(o,0,s.inf().unwrap()); O(o,1,s.sup().unwrap()); OI(o,2,s.contains(&A(a,%d)) as i64); 1' % (2 * k), na=2 * k + 1, no=3, core=False, pre=pre,
                             post=lambda c, ends=ends, k=k: [HOLDS('least value %d' % i, le(c.o(0), e[0])) for i, e in enumerate(ends(c))] + [HOLDS('greatest value %d' % i, ge(c.o(1), e[1])) for i, e in enumerate(ends(c))] +
                             [HOLDS('the ends are ends of components', band(ors([eqf(c.o(0), e[0]) for e in ends(c)]), ors([eqf(c.o(1), e[1]) for e in ends(c)]))),
                              HOLDS('contains the values of the components', ands([imp(band(ge(c.a[2 * k], e[0]), le(c.a[2 * k], e[1])), isone(c.oi(2))) for e in ends(c)]))]))
        comps = ', '.join('Pareto::new_unchecked(A(a,%d), 1.5)' % i for i in range(k))
        out.append(RCase('mixture_%d_pareto' % k, 'let m = Mixture::new_unchecked([%s], [%s]); O(o,0,m.support().inf().unwrap()); 1' % (', '.join(['%r' % (1.0 / k)] * k), comps), na=k, core=False, pre=lambda c, k=k: [gt(c.a[i], Z) for i in range(k)],
                         post=lambda c, k=k: [HOLDS('least value', ands([le(c.o(0), c.a[i]) for i in range(k)])), HOLDS('is that of a component', ors([eqf(c.o(0), c.a[i]) for i in range(k)]))]))
    return out


BOUNDS = 'every real parameter and point, every 64-bit count; degrees of freedom and shapes that are counts: every whole number from 1 to 10^9; vectors of 1 to 5 coordinates; mixtures of 1 to 5 components'
ASSUME = ['the spaces crate, absent here, is represented by a stand-in in which an interval contains the points between its ends']
