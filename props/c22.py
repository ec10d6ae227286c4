"""C22: every way of building a distribution gives the same distribution."""
from dists import *

TITLE = 'Every way of building a distribution gives the same distribution'
HELPERS = HEAD + '''
use crate::normal::{UvNormal, PairedNormal, BvNormal, MvNormal, DiagonalNormal, IsotropicNormal};
use crate::univariate as uv;
use crate::params::{Loc, Scale};
use crate::multivariate::{dirichlet::Dirichlet, multinomial::Multinomial};
unsafe fn md(o: *mut f64, b: usize, m: Vec<f64>) { O(o, b, m.len() as f64); for i in 0..(if m.len() < 2 { m.len() } else { 2 }) { O(o, b + 1 + i, m[i]) } }
'''
CORE = False

# functional -> (Rust expression, key of its formula); {x} is the point
ARG = [('cdf', 'd.cdf({x}).unwrap()', 'cdf'), ('ccdf', 'd.ccdf({x}).unwrap()', 'cdf'), ('pdf', 'd.pdf({x})', 'pdf'), ('pmf', 'd.pmf({x}).unwrap()', 'pmf')]
SCALAR = [('mean', 'd.mean()', 'mean'), ('variance', 'd.variance()', 'variance'), ('skewness', 'd.skewness()', 'skewness'), ('kurtosis', 'd.excess_kurtosis()', 'exk'),
          ('entropy', 'd.shannon_entropy()', 'entropy'), ('median', 'd.median()', 'median')]


def ways(I):
    """other ways to build what I.ctor builds"""
    d = I.d
    c, ty = I.ctor, d.path
    mod = ty.rsplit('::', 1)[0] if '<' not in ty else ty[:ty.rindex('::', 0, ty.rindex('::<'))]
    args = None
    if (d.edge or d.name) == 'binomial':
        i = c.index('Binomial::new(') + 14
        n = c[i:c.index(', p)')]
        p = c[c.index('(') + 1:c.index(').map_err')]
        un = '%s::new_unchecked(%s, Probability::new_unchecked(%s))' % (ty, n, p)
        pr = None
    elif d.name.startswith('degenerate'):
        v = c[c.index('::new(') + 6:-2]
        return [('from its parameter', '%s::from(Loc(%s))' % (ty, v)), ('from its own parameters', '%s::from(d.params())' % ty), ('cloned', 'd.clone()')]
    else:
        i = c.index('::new(') + 6
        j = c.index(').map') if ').map' in c else len(c) - 1
        args = c[i:j]
        P = {'normal': 'crate::normal::UvNormalParams', 'uniform': mod + '::Params::<f64>', 'uniform_int': mod + '::Params::<i64>'}.get(d.name, mod + '::Params' + (ty[ty.rindex('::<'):] if d.name.startswith('cat') else ''))
        a2 = args if d.name != 'uniform_int' else args.replace('as u64', 'as i64')
        if d.name in ('kumaraswamy', 'weibull'):
            un = '%s::from(%s::new_unchecked(%s))' % (ty, P, args)
            pr = None
        else:
            un = '%s::new_unchecked(%s)' % (ty, args)
            pr = '%s::from(%s::new(%s).unwrap())' % (ty, P, a2)
    r = [('unchecked', un)]
    if pr:
        r.append(('from checked parameters', pr))
    r += [('from its own parameters', '%s::from(d.params())' % ty), ('cloned', 'd.clone()')]
    return r


def cases(tier):
    out = []
    for I in insts(few=3, sym=True):
        W = ways(I)
        build = 'let d0 = d; ' + ''.join('let d%d = { let d = &d0; %s };' % (i + 1, e) for i, (_, e) in enumerate(W))

        def add(nm, expr, cond, na=0, xs='', I=I, W=W, build=build, x=False):
            code = build + ' '.join('{ let d = &d%d; O(o,%d,%s); }' % (i, i, expr) for i in range(len(W) + 1))

            def pre(c):
                return I.pre(c) + (I.d.sup(I.p(c), c.a[I.na]) if x else []) + (cond(I.p(c)) if cond else [])
            if never(pre(dummy(I))):
                return
            out.append(RCase('%s_%s' % (I.tag, nm), I.body(code), na=I.na + x, nn=I.nn, no=len(W) + 1, core=False, pre=pre, hints=I.d.hints,
                             post=lambda c: constructed(c) + [EQ('%s: %s' % (nm, l), c.o(i + 1), c.o(0)) for i, (l, _) in enumerate(W)]))
        for nm, expr, key in ARG:
            if I.spec(key) is None:
                continue
            if I.d.x == 'f':
                add(nm, expr.replace('{x}', '&A(a,%d)' % I.na), None, x=True)
            else:
                vals = list(I.d.xvals(3 if I.sym or not I.fixed else list(I.fixed.values())[0]))[:3]
                for k in vals:
                    xs = {'bool': 'true' if k else 'false'}.get(I.d.x, '(%d as %s)' % (k, I.d.x))
                    add('%s_at%s' % (nm, str(k).replace('-', 'm')), expr.replace('{x}', '&' + xs), None)
        for nm, expr, key in SCALAR:
            s = I.spec(key)
            if s is None:
                continue
            for suf, cond, val in pieces(s, 1):
                if val is not None:
                    add(nm + suf, expr if not (nm == 'median' and I.d.x == 'x') else expr, cond)
        s = I.spec('modes')
        if s is not None and I.d.x == 'f':
            n = len(W) + 1
            code = build + ' '.join('md(o,%d,d%d.modes());' % (3 * i, i) for i in range(n))
            for suf, cond, val in pieces(s, 1):
                pre = lambda c, I=I, cond=cond: I.pre(c) + (cond(I.p(c)) if cond else [])
                if never(pre(dummy(I))):
                    continue
                k = len(val(I.p(dummy(I))))
                out.append(RCase('%s_modes%s' % (I.tag, suf), I.body(code), na=I.na, nn=I.nn, no=3 * n, core=False, pre=pre, hints=I.d.hints,
                                 post=lambda c, W=W, k=k: constructed(c) + [EQ('modes: %s' % l, c.o(3 * i + 3 + j), c.o(j)) for i, (l, _) in enumerate(W) for j in range(min(k, 2) + 1)]))
    # named constructors and defaults: the law is that of the general constructor
    U_ = 'crate::univariate::'

    def named(nm, e, general, na, pre, x=True, more='', fs=('d.cdf(&A(a,X)).unwrap()', 'd.pdf(&A(a,X))')):
        fs = [f.replace('X)', '%d)' % na) for f in fs]
        n = len(fs)
        code = 'let d = %s; ' % e + ' '.join('O(o,%d,%s);' % (i, f) for i, f in enumerate(fs)) + ' let d = %s; ' % general + ' '.join('O(o,%d,%s);' % (n + i, f) for i, f in enumerate(fs)) + ' 1'
        out.append(RCase(nm, code, na=na + 1, no=2 * n, core=False, pre=pre, post=lambda c: [EQ('functional %d' % i, c.o(i), c.o(n + i)) for i in range(n)]))
    full = ('d.cdf(&A(a,X)).unwrap()', 'd.pdf(&A(a,X))', 'd.mean()', 'd.variance()')
    uni = lambda c: [gt(c.a[0], Z), lt(c.a[0], ONE)]
    pos0 = lambda c: [gt(c.a[0], Z)]
    anyx = lambda c: []
    for nm, ty, args, pre, fs in (
            ('arcsine', 'arcsine::Arcsine', '0.0, 1.0', uni, full), ('beta', 'beta::Beta', '1.0, 1.0', uni, full), ('beta_prime', 'beta_prime::BetaPrime', '1.0, 1.0', pos0, full[:2]), ('cauchy', 'cauchy::Cauchy', '0.0, 1.0', anyx, full[:2]),
            ('erlang', 'erlang::Erlang', '1, 1.0', pos0, full), ('exponential', 'exponential::Exponential', '1.0', pos0, full), ('folded_normal', 'folded_normal::FoldedNormal', '0.0, 1.0', pos0, full), ('frechet', 'frechet::Frechet', '1.0', pos0, full[:2]),
            ('gamma', 'gamma::Gamma', '1.0, 1.0', pos0, full), ('gumbel', 'gumbel::Gumbel', '0.0, 1.0', anyx, full), ('inverse_gamma', 'inverse_gamma::InvGamma', '1.0, 1.0', pos0, full[:2]),
            ('uniform', 'uniform::Uniform::<f64>', '0.0, 1.0', uni, full)):
        named('default_' + nm, U_ + ty + '::default()', U_ + ty + '::new(%s).unwrap()' % args, 0, pre, fs=fs)
    named('default_kumaraswamy', U_ + 'kumaraswamy::Kumaraswamy::default()', U_ + 'kumaraswamy::Kumaraswamy::from(' + U_ + 'kumaraswamy::Params::new(1.0, 1.0).unwrap())', 0, uni, fs=full)
    named('default_degenerate', U_ + 'degenerate::Degenerate::<f64>::default()', U_ + 'degenerate::Degenerate::<f64>::new(0.0)', 0, anyx, fs=full[:1] + full[2:])
    named('standard_folded_normal', U_ + 'folded_normal::FoldedNormal::standard()', U_ + 'folded_normal::FoldedNormal::new(0.0, 1.0).unwrap()', 0, pos0, fs=full)
    named('half_normal', U_ + 'folded_normal::FoldedNormal::half_normal(Scale(A(a,0)))', U_ + 'folded_normal::FoldedNormal::new(0.0, A(a,0)).unwrap()', 1, lambda c: [gt(c.a[0], Z), gt(c.a[1], Z)], fs=full)
    named('lognormal_of_normal', U_ + 'lognormal::LogNormal::from(UvNormal::new(A(a,0), A(a,1)).unwrap())', U_ + 'lognormal::LogNormal::new(A(a,0), A(a,1)).unwrap()', 2, lambda c: [gt(c.a[1], Z), gt(c.a[2], Z)], fs=full)
    named('standard_normal', 'UvNormal::standard()', 'UvNormal::new(0.0, 1.0).unwrap()', 0, anyx, fs=full)
    named('triangular_symmetric', U_ + 'triangular::Triangular::from(' + U_ + 'triangular::Params::symmetric(A(a,0), A(a,1)).unwrap())', U_ + 'triangular::Triangular::new(A(a,0), (A(a,1) - A(a,0)) / 2.0, (A(a,1) - A(a,0)) / 2.0).unwrap()', 2,
          lambda c: [gt(c.a[1], c.a[0]), gt(c.a[2], c.a[0]), lt(c.a[2], c.a[1])], fs=full)
    # what parameter records report
    def acc(nm, code, na, pre, want):
        n = len(want(Ctx([tm.var('a%d' % i) for i in range(na)], [])))
        out.append(RCase('accessor_' + nm, code + ' 1', na=na, no=n, core=False, pre=pre, post=lambda c: [EQ('value %d' % i, c.o(i), w) for i, w in enumerate(want(c))]))
    T = 'let p = ' + U_ + 'triangular::Params::'
    acc('triangular', T + 'new(A(a,0), A(a,1), A(a,2)).unwrap(); O(o,0,p.a.0); O(o,1,p.c()); O(o,2,p.b());', 3, lambda c: [gt(c.a[1], Z), gt(c.a[2], Z)], lambda c: [c.a[0], c.a[0] + c.a[1], c.a[0] + c.a[1] + c.a[2]])
    acc('triangular_symmetric', T + 'symmetric(A(a,0), A(a,1)).unwrap(); O(o,0,p.a.0); O(o,1,p.c()); O(o,2,p.b());', 2, lambda c: [gt(c.a[1], c.a[0])], lambda c: [c.a[0], (c.a[0] + c.a[1]) / 2, c.a[1]])
    acc('arcsine', 'let p = ' + U_ + 'arcsine::Params::new(A(a,0), A(a,1)).unwrap(); O(o,0,p.a.0); O(o,1,p.b().0);', 2, lambda c: [gt(c.a[1], Z)], lambda c: [c.a[0], c.a[0] + c.a[1]])
    acc('uniform', 'let p = ' + U_ + 'uniform::Params::<f64>::new(A(a,0), A(a,1)).unwrap(); O(o,0,p.lb().0); O(o,1,p.width().0);', 2, lambda c: [gt(c.a[1], Z)], lambda c: [c.a[0], c.a[1]])
    out.append(RCase('accessor_erlang_mu', 'O(o,0,' + U_ + 'erlang::Erlang::new(N(n,0) as usize, A(a,0)).unwrap().mu()); 1', na=1, nn=1, core=False, pre=lambda c: pos0(c) + [between(c.n[0], 1, 2 ** 40)], post=lambda c: [EQ('value 0', c.o(0), 1 / c.a[0])]))
    acc('gumbel_z', 'O(o,0,' + U_ + 'gumbel::Gumbel::new(A(a,0), A(a,1)).unwrap().z(A(a,2)));', 3, lambda c: [gt(c.a[1], Z)], lambda c: [(c.a[2] - c.a[0]) / c.a[1]])
    acc('cauchy_fwhm', 'O(o,0,' + U_ + 'cauchy::Cauchy::new(A(a,0), A(a,1)).unwrap().fwhm());', 2, lambda c: [gt(c.a[1], Z)], lambda c: [2 * c.a[1]])
    acc('folded_normal_precision', 'O(o,0,' + U_ + 'folded_normal::FoldedNormal::new(A(a,0), A(a,1)).unwrap().precision());', 2, lambda c: [gt(c.a[1], Z)], lambda c: [1 / (c.a[1] * c.a[1])])
    # counts
    out.append(Case('accessor_uniform_span', 'crate::univariate::uniform::Uniform::<i64>::new_unchecked(N(n,0), N(n,1) as u64).span() as i64', nn=2, core=False, pre=lambda c: [between(c.n[1], 1, 2 ** 62)],
                    post=lambda c: [('number of values', same(c.ret, tm.ibin('add', c.n[1], bv(1, 64))))]))
    for k in (1, 2, 5):
        out.append(Case('accessor_categories_%d' % k, '(crate::univariate::categorical::Categorical::<%d>::n_categories() + 100 * Mixture::<%d, UvNormal>::n_components()) as i64' % (k, k), core=False, na=1, post=lambda c, k=k: [('number of categories', retis(c, 101 * k))]))
    for k in (1, 2, 3, 4):
        out.append(Case('accessor_multinomial_%d' % k, 'let mut w = [0.0; %d]; for i in 0..%d { w[i] = A(a,i); } let p = crate::multivariate::multinomial::Params::<%d>::new_unchecked(N(n,0) as usize, w); for i in 0..%d { O(o,i,p.ps()[i]); } p.n().0 as i64' % (k, k, k, k), core=False, na=k, nn=1, no=k,
                        post=lambda c, k=k: [('number of trials', same(c.ret, c.n[0]))] + [('weight %d' % i, fsame(c, i, c.a[i])) for i in range(k)]))
    return out


BOUNDS = ['every real parameter and every point of the support; integer parameters: every value from 1 to 10^9 where the functional is closed in them, and the first three listed values']
ASSUME = ['exact real arithmetic (counts and accessors are decided on machine words)']
