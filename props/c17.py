"""C17: the multivariate normal family."""
from dists import *
from laws import gaussian

TITLE = 'Multivariate normals of every covariance shape agree with their definition'
HELPERS = HEAD + '''
use crate::distance::Mahalanobis;
use crate::normal::{MvNormal, DiagonalNormal, IsotropicNormal, PairedNormal, BvNormal, UvNormal, Covariance, Grad};
unsafe fn arr<const K: usize>(a: *const f64, b: usize) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, b + i) } r }
// L * L^T for the lower triangular matrix stored by rows
unsafe fn llt<const K: usize>(a: *const f64, b: usize) -> [[f64; K]; K] {
    let mut l = [[0.0; K]; K];
    let mut t = b;
    for i in 0..K { for j in 0..(i + 1) { l[i][j] = A(a, t); t += 1; } }
    let mut m = [[0.0; K]; K];
    for i in 0..K { for j in 0..K { let mut s = 0.0; for k in 0..(if i < j { i } else { j } + 1) { s += l[i][k] * l[j][k]; } m[i][j] = s; } }
    m
}
unsafe fn put<const K: usize>(o: *mut f64, b: usize, v: [f64; K]) { for i in 0..K { O(o, b + i, v[i]) } }
unsafe fn put2<const K: usize>(o: *mut f64, b: usize, v: [[f64; K]; K]) { for i in 0..K { for j in 0..K { O(o, b + i * K + j, v[i][j]) } } }
pub struct Rg;
impl rand::RngCore for Rg {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, _: &mut [u8]) {}
}
'''
CORE = False


class Fam:
    """mu: a0..a(n-1); then k scale inputs; x after them.
       low(s) -> the lower triangular factor of the covariance as terms"""

    def __init__(self, name, n, k, ctor, low, valid, unchecked=None, maha=False, hints=None, corr=None, ty=None):
        self.name, self.n, self.k, self.ctor, self.low, self.valid = name, n, k, ctor, low, valid
        self.unchecked, self.maha, self.hints = unchecked, maha, hints or {}
        self.corr, self.ty = corr, ty


def tri(n, s):
    L = [[R(0)] * n for _ in range(n)]
    t = 0
    for i in range(n):
        for j in range(i + 1):
            L[i][j] = s[t]
            t += 1
    return L


def diag(v): return [[v[i] if i == j else R(0) for j in range(len(v))] for i in range(len(v))]


def gram(L):
    n = len(L)
    return [[fsum([R(0)] + [L[i][k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(n)] for i in range(n)]


def forward(L, d):
    y = []
    for i in range(len(L)):
        y.append((d[i] - fsum([R(0)] + [L[i][j] * y[j] for j in range(i)])) / L[i][i])
    return y


def families(tier):
    fs = []
    for n in (1, 2, 3, 4):
        k = n * (n + 1) // 2
        hints = {'a%d' % (n + i * (i + 3) // 2): (0.5, 3) for i in range(n)}
        fs.append(Fam('general_%d' % n, n, k, 'MvNormal::<%d>::new(arr::<%d>(a,0), llt::<%d>(a,%d))' % (n, n, n, n), lambda s, n=n: tri(n, s),
                      lambda s, n=n: [gt(s[i * (i + 3) // 2], Z) for i in range(n)], 'MvNormal::<%d>::new_unchecked(arr::<%d>(a,0), llt::<%d>(a,%d))' % (n, n, n, n), True, hints, ty='MvNormal<%d>' % n))
    for n in range(1, 8 if tier == 'quick' else 9):
        pos = lambda s: [gt(x, Z) for x in s]
        fs.append(Fam('diagonal_%d' % n, n, n, 'DiagonalNormal::<%d>::diagonal(arr::<%d>(a,0), arr::<%d>(a,%d))' % (n, n, n, n), lambda s: diag([sq(x) for x in s]), pos,
                      'DiagonalNormal::<%d>::diagonal_unchecked(arr::<%d>(a,0), arr::<%d>(a,%d))' % (n, n, n, n), True, ty='DiagonalNormal<%d>' % n))
        fs.append(Fam('isotropic_%d' % n, n, 1, 'IsotropicNormal::<%d>::isotropic(arr::<%d>(a,0), A(a,%d))' % (n, n, n), lambda s, n=n: diag([sq(s[0])] * n), pos,
                      'IsotropicNormal::<%d>::isotropic_unchecked(arr::<%d>(a,0), A(a,%d))' % (n, n, n), True, ty='IsotropicNormal<%d>' % n))
    fs.append(Fam('paired', 2, 2, 'PairedNormal::new(arr::<2>(a,0), arr::<2>(a,2))', lambda s: diag([sq(x) for x in s]), pos, 'PairedNormal::new_unchecked(arr::<2>(a,0), arr::<2>(a,2))', ty='PairedNormal'))
    fs.append(Fam('paired_isotropic', 2, 1, 'PairedNormal::isotropic(arr::<2>(a,0), A(a,2))', lambda s: diag([sq(s[0])] * 2), pos, 'PairedNormal::isotropic_unchecked(arr::<2>(a,0), A(a,2))'))
    fs.append(Fam('bivariate', 2, 3, 'BvNormal::new(arr::<2>(a,0), arr::<2>(a,2), A(a,4))',
                  lambda s: [[sq(s[0]), R(0)], [sq(s[1]) * s[2], sq(s[1]) * sq(1 - s[2] * s[2])]], lambda s: [gt(s[0], Z), gt(s[1], Z), gt(s[2], -ONE), lt(s[2], ONE)],
                  'BvNormal::new_unchecked(arr::<2>(a,0), arr::<2>(a,2), A(a,4))', ty='BvNormal', hints={'a4': (-0.9, 0.9)}))
    fs.append(Fam('bivariate_independent', 2, 2, 'BvNormal::independent(arr::<2>(a,0), arr::<2>(a,2))', lambda s: diag([sq(x) for x in s]), pos, 'BvNormal::independent_unchecked(arr::<2>(a,0), arr::<2>(a,2))'))
    fs.append(Fam('bivariate_isotropic', 2, 1, 'BvNormal::isotropic(arr::<2>(a,0), A(a,2))', lambda s: diag([sq(s[0])] * 2), pos, 'BvNormal::isotropic_unchecked(arr::<2>(a,0), A(a,2))'))
    return fs


def cases(tier):
    out = []
    for f in families(tier):
        n, k = f.n, f.k
        mu = lambda c, n=n: [c.a[i] for i in range(n)]
        sc = lambda c, n=n, k=k: [c.a[n + i] for i in range(k)]
        xs = lambda c, n=n, k=k: [c.a[n + k + i] for i in range(n)]
        pre = lambda c, f=f, sc=sc: f.valid(sc(c))
        d = lambda c, mu=mu, xs=xs: [x - m for x, m in zip(xs(c), mu(c))]
        L = lambda c, f=f, sc=sc: f.low(sc(c))
        d2 = lambda c, L=L, d=d: fsum(y * y for y in forward(L(c), d(c)))
        det = lambda c, L=L, n=n: fprod(L(c)[i][i] ** 2 for i in range(n))
        cov = lambda c, L=L: gram(L(c))
        base = 'match %s { Ok(m) => { %%s 1 } Err(_) => 0 }' % f.ctor
        X = 'let x = arr::<%d>(a,%d);' % (n, n + k)

        def rc(nm, code, post, point=False, no=1, f=f, pre=pre, base=base, panics=None):
            out.append(RCase('%s_%s' % (f.name, nm), base % code, na=n + k + (n if point else 0), no=no, core=False, pre=pre, hints=f.hints,
                             post=lambda c: constructed(c) + (post(c) if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
        idx = [(i, j) for i in range(n) for j in range(n)]
        rc('pdf', X + ' O(o,0,m.pdf(&x));', lambda c, d2=d2, det=det, n=n: [EQ('density', c.o(0), exp(-d2(c) / 2) / sq((2 * PI) ** n * det(c)))], point=True)
        rc('log_pdf', X + ' O(o,0,m.log_pdf(&x));', lambda c, d2=d2, det=det, n=n: [EQ('log density', c.o(0), -d2(c) / 2 - n * ln(2 * PI) / 2 - ln(det(c)) / 2)], point=True)
        if f.maha:
            rc('distance_squared', X + ' O(o,0,m.d_mahalanobis_squared(&x));', lambda c, d2=d2: [EQ('squared distance', c.o(0), d2(c))], point=True)
            rc('distance', X + ' O(o,0,m.d_mahalanobis(&x));', lambda c, d2=d2: [GE('distance is not negative', c.o(0), R(0)), EQ('distance squared', c.o(0) * c.o(0), d2(c))], point=True)
        if f.name.startswith(('paired', 'bivariate')):
            rc('z', X + ' O(o,0,m.z(&x));', lambda c, d2=d2: [EQ('quadratic form', c.o(0), d2(c))], point=True)
        rc('mean', 'put::<%d>(o,0,m.mean());' % n, lambda c, mu=mu, n=n: [EQ('mean %d' % i, c.o(i), mu(c)[i]) for i in range(n)], no=n)
        rc('modes', 'let v = m.modes(); if v.len() != 1 { return 2; } put::<%d>(o,0,v[0]);' % n, lambda c, mu=mu, n=n: [EQ('mode %d' % i, c.o(i), mu(c)[i]) for i in range(n)], no=n)
        rc('covariance', 'put2::<%d>(o,0,m.covariance());' % n, lambda c, cov=cov, idx=idx, n=n: [EQ('covariance %d,%d' % ij, c.o(ij[0] * n + ij[1]), cov(c)[ij[0]][ij[1]]) for ij in idx], no=n * n)
        rc('variance', 'put::<%d>(o,0,m.variance());' % n, lambda c, cov=cov, n=n: [EQ('variance %d' % i, c.o(i), cov(c)[i][i]) for i in range(n)], no=n)
        rc('correlation', 'put2::<%d>(o,0,m.correlation());' % n,
           lambda c, cov=cov, idx=idx, n=n: [EQ('correlation %d,%d' % ij, c.o(ij[0] * n + ij[1]), R(1) if ij[0] == ij[1] else cov(c)[ij[0]][ij[1]] / (sq(cov(c)[ij[0]][ij[0]]) * sq(cov(c)[ij[1]][ij[1]]))) for ij in idx], no=n * n)
        rc('entropy', 'O(o,0,m.shannon_entropy());', lambda c, det=det, n=n: [EQ('entropy', c.o(0), (n * (1 + ln(2 * PI)) + ln(det(c))) / 2)])

        def sample(c, mu=mu, L=L, n=n):
            return gaussian(c, [c.o(i) for i in range(n)], mu(c), L(c), n)
        rc('sample', 'put::<%d>(o,0,m.sample(&mut Rg));' % n, sample, no=n)
        # the unchecked constructor and the parameter record give the same distribution
        for tag, e in (('unchecked', f.unchecked), ('params', '{ let q = %s; <%s>::from(q.params()) }' % (f.unchecked, f.ty) if f.ty else None)):
            if e:
                rc(tag, X + 'O(o,0,m.pdf(&x)); put::<%d>(o,1,m.mean()); put2::<%d>(o,%d,m.covariance());' % (n, n, n + 1),
                   lambda c, d2=d2, det=det, n=n, mu=mu, cov=cov, idx=idx: [EQ('density', c.o(0), exp(-d2(c) / 2) / sq((2 * PI) ** n * det(c)))] +
                   [EQ('mean %d' % i, c.o(1 + i), mu(c)[i]) for i in range(n)] + [EQ('covariance %d,%d' % ij, c.o(1 + n + ij[0] * n + ij[1]), cov(c)[ij[0]][ij[1]]) for ij in idx],
                   point=True, no=1 + n + n * n, base='{ let m = %s; %%s 1 }' % e)
    # ready-made distributions
    for nm, e, n in (('isotropic_homogeneous', 'IsotropicNormal::<2>::homogeneous(A(a,0), A(a,1)).unwrap()', 2), ('isotropic_homogeneous_unchecked', 'IsotropicNormal::<2>::homogeneous_unchecked(A(a,0), A(a,1))', 2)):
        out.append(RCase(nm, 'let m = %s; let x = arr::<2>(a,2); O(o,0,m.pdf(&x)); put::<2>(o,1,m.mean()); put2::<2>(o,3,m.covariance()); 1' % e, na=4, no=7, core=False, pre=lambda c: [gt(c.a[1], Z)],
                         post=lambda c: [EQ('density', c.o(0), exp(-((c.a[2] - c.a[0]) ** 2 + (c.a[3] - c.a[0]) ** 2) / (2 * c.a[1])) / (2 * PI * c.a[1])), EQ('mean 0', c.o(1), c.a[0]), EQ('mean 1', c.o(2), c.a[0])] +
                         [EQ('covariance %d' % i, c.o(3 + i), c.a[1] if i in (0, 3) else R(0)) for i in range(4)]))
    for nm, e in (('isotropic', 'IsotropicNormal::<2>::standard().unwrap()'), ('isotropic_unchecked', 'IsotropicNormal::<2>::standard_unchecked()'), ('paired', 'PairedNormal::standard()'), ('bivariate', 'BvNormal::standard()'),
                  ('paired_default', 'PairedNormal::default()'), ('bivariate_default', 'BvNormal::default()')):
        out.append(RCase('standard_' + nm, 'let m = %s; let x = arr::<2>(a,0); O(o,0,m.pdf(&x)); put::<2>(o,1,m.mean()); put2::<2>(o,3,m.covariance()); 1' % e, na=2, no=7, core=False,
                         post=lambda c: [EQ('density', c.o(0), exp(-(c.a[0] ** 2 + c.a[1] ** 2) / 2) / (2 * PI)), EQ('mean 0', c.o(1), R(0)), EQ('mean 1', c.o(2), R(0))] +
                         [EQ('covariance %d' % i, c.o(3 + i), R(int(i in (0, 3)))) for i in range(4)]))
    out.append(RCase('standard_univariate', 'let m = UvNormal::standard(); O(o,0,m.pdf(&A(a,0))); O(o,1,m.mean()); O(o,2,m.variance()); 1', na=1, no=3, core=False,
                     post=lambda c: [EQ('density', c.o(0), exp(-c.a[0] ** 2 / 2) / sq(2 * PI)), EQ('mean', c.o(1), R(0)), EQ('variance', c.o(2), R(1))]))
    out.append(RCase('univariate_z', 'let m = UvNormal::new_unchecked(A(a,0), A(a,1)); O(o,0,m.z(A(a,2))); O(o,1,m.precision()); 1', na=3, no=2, core=False, pre=lambda c: [gt(c.a[1], Z)],
                     post=lambda c: [EQ('standard score', c.o(0), (c.a[2] - c.a[0]) / sq(c.a[1])), EQ('precision', c.o(1), 1 / c.a[1])]))
    # a gradient times a number scales every component
    N_ = lambda c, i, s: EQ('component %d' % i, c.o(i), c.a[i] * c.a[s])
    for nm, mk, rd, m in (
            ('univariate', 'Grad { mu: A(a,0), Sigma: A(a,1) }', 'O(o,0,g.mu); O(o,1,g.Sigma);', 2),
            ('general', 'Grad { mu: arr::<2>(a,0), Sigma: [arr::<2>(a,2), arr::<2>(a,4)] }', 'put::<2>(o,0,g.mu); put2::<2>(o,2,g.Sigma);', 6),
            ('diagonal', 'Grad { mu: arr::<3>(a,0), Sigma: arr::<3>(a,3) }', 'put::<3>(o,0,g.mu); put::<3>(o,3,g.Sigma);', 6),
            ('isotropic', 'Grad { mu: arr::<3>(a,0), Sigma: A(a,3) }', 'put::<3>(o,0,g.mu); O(o,3,g.Sigma);', 4),
            ('bivariate', 'Grad { mu: arr::<2>(a,0), Sigma: (arr::<2>(a,2), A(a,4)) }', 'put::<2>(o,0,g.mu); put::<2>(o,2,g.Sigma.0); O(o,4,g.Sigma.1);', 5)):
        out.append(RCase('scaled_gradient_' + nm, 'let g = %s * A(a,%d); %s 1' % (mk, m, rd), na=m + 1, no=m, core=False, post=lambda c, m=m: [N_(c, i, m) for i in range(m)]))
    # construction rejects what is not a covariance
    rej = lambda nm, e, na, cond: out.append(Case('reject_' + nm, '%s.is_err() as i64' % e, na=na, pre=cond, post=lambda c: [('rejected', retis(c, 1))], core=False))
    nonpos = lambda x: bnot(gt(x, Z))
    for i in (0, 1):
        for nm, e in (('diagonal', 'DiagonalNormal::<2>::diagonal([0.0, 0.0], arr::<2>(a,0))'), ('paired', 'PairedNormal::new([0.0, 0.0], arr::<2>(a,0))'),
                      ('bivariate', 'BvNormal::new([0.0, 0.0], arr::<2>(a,0), 0.5)'), ('bivariate_independent', 'BvNormal::independent([0.0, 0.0], arr::<2>(a,0))')):
            rej('%s_variance_%d' % (nm, i), e, 2, lambda c, i=i: [nonpos(c.a[i])])
        rej('general_variance_%d' % i, 'MvNormal::<2>::new([0.0, 0.0], [arr::<2>(a,0), arr::<2>(a,2)])', 4, lambda c, i=i: [lt(c.a[3 * i], Z)])
    rej('isotropic_variance', 'IsotropicNormal::<2>::isotropic([0.0, 0.0], A(a,0))', 1, lambda c: [nonpos(c.a[0])])
    rej('homogeneous_variance', 'IsotropicNormal::<2>::homogeneous(0.0, A(a,0))', 1, lambda c: [nonpos(c.a[0])])
    rej('bivariate_rho', 'BvNormal::new([0.0, 0.0], [1.0, 1.0], A(a,0))', 1, lambda c: [bnot(band(ge(c.a[0], f64(-1.0)), le(c.a[0], ONE)))])
    return out


BOUNDS = 'dimensions 1 to 4 for the general shape, 1 to 7 for the diagonal and isotropic ones (8 in the thorough tier), every mean, every positive-definite covariance of the shape and every point'
ASSUME = ['exact real arithmetic (rejection of invalid parameters is decided on doubles)', 'LAPACK and BLAS routines compute the matrix functions they document']
