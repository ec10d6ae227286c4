"""C21: arguments outside the support."""
from dists import *
from c20 import END

TITLE = 'Outside the support the density is zero and the cdf is zero below, one above'
HELPERS = HEAD + '''
use crate::univariate::categorical::Categorical;
use crate::normal::UvNormal;
'''
CORE = False
# the density tends to zero at the lower end, which is not a value the variable takes
ZERO_AT = ('frechet', 'inverse_gamma', 'inverse_normal', 'levy', 'lognormal')
END = dict(END, gpd=lambda p: (p[0], None, None, None), gev=lambda p: (p[0] - p[1] / p[2], None, None, None))


def fin(x): return lt(tm.fun('fabs', x), f64(float('inf')))


def rust(t):
    """a term over the inputs as Rust"""
    if t.op == 'var':
        return 'A(a,%s)' % t.args[0][1:]
    if t.op in ('rat', 'c'):
        return '%r' % float(t.args[0] if t.op == 'rat' else tm.fval(t))
    return '(%s %s %s)' % (rust(t.args[0]), {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[t.op], rust(t.args[1]))


def cases(tier):
    out = []
    for I in insts(few=3, sym=True):
        nm = I.d.name
        if nm not in END or I.d.x != 'f':
            continue
        has = lambda f, I=I: I.d.f.get(f) is not None
        for side, k in (('below', 0), ('above', 2)):
            if END[nm](I.p(dummy(I)))[k] is None:
                continue

            def pre(c, I=I, nm=nm, k=k):
                e = END[nm](I.p(c))[k]
                x = c.a[I.na]
                return I.pre(c) + [(le(x, e) if nm in ZERO_AT else lt(x, e)) if k == 0 else gt(x, e)]
            F = R(0) if k == 0 else R(1)
            for fn, code, label, want in (('cdf', 'd.cdf({x}).unwrap()', 'F(x)', F), ('ccdf', 'd.ccdf({x}).unwrap()', '1 - F(x)', 1 - F), ('pdf', 'd.pdf({x})', 'f(x)', R(0))):
                out.append(RCase('%s_%s_%s' % (I.tag, fn, side), I.body('O(o,0,%s);' % code.replace('{x}', '&A(a,%d)' % I.na)), fn='%s_%s' % (I.tag, fn), na=I.na + 1, nn=I.nn, core=False, pre=pre, hints=I.d.hints,
                                 post=lambda c, label=label, want=want: constructed(c) + [EQ(label, c.o(0), want)]))
            # at the very end of the range
            e = END[nm](I.p(dummy(I)))[k]
            src = rust(e)
            for fn, code, want in (('cdf', 'd.cdf(&x).unwrap()', F), ('ccdf', 'd.ccdf(&x).unwrap()', 1 - F)):
                out.append(RCase('%s_%s_end_%s' % (I.tag, fn, side), I.body('let x = %s; O(o,0,%s);' % (src, code)), na=max(1, I.na), nn=I.nn, core=False, pre=I.pre, hints=I.d.hints,
                                 post=lambda c, want=want, cc=fn == 'ccdf': constructed(c) + [EQ('1 - F(x)' if cc else 'F(x)', c.o(0), want)]))
    # counts above the number of trials, categories beyond the last
    for n in (0, 1, 2, 5):
        for k in (n + 1, n + 2, 2 * n + 3, 1000, 2 ** 40):
            for nm, mk, na, fns in (('binomial', 'crate::univariate::binomial::Binomial::new_unchecked(%d, Probability::new_unchecked(A(a,0)))' % n, 1, ('pmf', 'cdf', 'ccdf')),
                                    ('beta_binomial', 'crate::univariate::beta_binomial::BetaBinomial::new_unchecked(%d, A(a,0), A(a,1))' % n, 2, ('pmf', 'cdf', 'ccdf')),
                                    ('beta_binomial_even', 'crate::univariate::beta_binomial::BetaBinomial::new_unchecked(%d, 1.0, 1.0)' % n, 0, ('pmf',))):
                for fn in fns:
                    out.append(RCase('%s_%d_%s_at_%d' % (nm, n, fn, k), 'let d = %s; O(o,0,d.%s(&%dusize).unwrap()); 1' % (mk, fn, k), na=max(na, 1), core=False,
                                     pre=lambda c, na=na: [ge(c.a[0], Z), le(c.a[0], ONE)] if na == 1 else [gt(c.a[i], Z) for i in range(na)],
                                     post=lambda c, fn=fn: [EQ('probability', c.o(0), R(1 if fn == 'cdf' else 0))]))
    # ... for every such count
    for n in (0, 1, 2, 5):
        for nm, mk, na, fns in (('binomial', 'crate::univariate::binomial::Binomial::new_unchecked(%d, Probability::new_unchecked(A(a,0)))' % n, 1, ('pmf', 'cdf', 'ccdf')),
                                ('beta_binomial', 'crate::univariate::beta_binomial::BetaBinomial::new_unchecked(%d, A(a,0), A(a,1))' % n, 2, ('pmf', 'cdf', 'ccdf'))):
            for fn in fns:
                out.append(RCase('%s_%d_%s_beyond' % (nm, n, fn), 'let d = %s; O(o,0,d.%s(&(N(n,0) as usize)).unwrap()); 1' % (mk, fn), na=na, nn=1, core=False,
                                 pre=lambda c, na=na, n=n: [between(c.n[0], n + 1, 2 ** 53)] + ([ge(c.a[0], Z), le(c.a[0], ONE)] if na == 1 else [gt(c.a[i], Z) for i in range(na)]),
                                 post=lambda c, fn=fn: [EQ('probability', c.o(0), R(1 if fn == 'cdf' else 0))]))
    for n in (1, 2, 3, 4, 5):
        out.append(RCase('categorical_%d_cdf_beyond' % n, 'let mut w = [0.0; %d]; let mut s = 0.0; for i in 0..%d { w[i] = A(a, i); s += w[i]; } w[%d] = 1.0 - s; O(o,0,Categorical::<%d>::new_unchecked(w).cdf(&(N(n,0) as usize)).unwrap()); 1' % (n, n - 1, n - 1, n),
                         na=max(n - 1, 1), nn=1, core=False, pre=lambda c, n=n: [between(c.n[0], n, 2 ** 53)] + [gt(c.a[i], Z) for i in range(n - 1)] + [lt(fsum([R(0)] + [c.a[i] for i in range(n - 1)]), ONE)],
                         post=lambda c: [EQ('probability', c.o(0), R(1))]))
    # the normal distribution function at infinity, on doubles
    for s, v in (('NEG_INFINITY', 0.0), ('INFINITY', 1.0)):
        out.append(Case('normal_cdf_%s' % s, 'O(o,0,UvNormal::new_unchecked(A(a,0), A(a,1)).cdf(&f64::%s).unwrap()); 1' % s, na=2, no=1, core=False, pre=lambda c: [fin(c.a[0]), fin(c.a[1]), gt(c.a[1], Z)],
                        post=lambda c, v=v: [('limit of the cdf', eqf(c.o(0), f64(v)))]))
    return out


BOUNDS = 'every real parameter and every real point strictly outside the support (also at the open end where the density vanishes; the cdf also at both ends); degrees of freedom and shapes that are counts: every whole number from 1 to 10^9; counts beyond the trials or categories: every one up to 2^53, with 0, 1, 2 or 5 trials and 1 to 5 categories'
ASSUME = ['exact real arithmetic; the normal cdf at infinity is decided on doubles']
