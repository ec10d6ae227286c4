"""C15: sums of independent variables."""
from dists import *

TITLE = 'Sums of independent variables follow the distribution convolve returns'
HELPERS = HEAD + '''
use crate::univariate as uv;
use crate::normal::UvNormal;
use crate::univariate::{bernoulli::Bernoulli, binomial::Binomial, cauchy::Cauchy, chi_sq::ChiSq, exponential::Exponential, gamma::Gamma, poisson::Poisson};
'''
CORE = False


def fam(name, mk, k, put, no, valid, combine, sizes, eqs=None):
    """mk(args) -> constructor (unchecked: parameters are assumed valid), k reals per variable; put: code writing the
    parameters of `r`; combine(list of parameter lists) -> parameters of the sum; eqs(ps) -> condition under which the sum stays in the family"""
    out = []
    for n in sizes:
        na = k * n
        d = [mk(['A(a,%d)' % (k * i + j) for j in range(k)]) for i in range(n)]
        P_ = lambda c, n=n: [[c.a[k * i + j] for j in range(k)] for i in range(n)]

        def pre(c, P_=P_): return [x for p in P_(c) for x in valid(p)]

        def post(c, P_=P_, lax=False):
            ps = P_(c)
            ok = eqs(ps) if eqs else TRUE
            r = [accept(c, ok, lax)]
            if c.ret.op == 'c' and c.ret.args[0] == 1:
                r += [EQ('parameter %d of the sum' % i, c.o(i), e) for i, e in enumerate(combine(ps))]
            return r
        forms = []
        if n == 2:
            forms.append(('', '%s.convolve(%s)' % (d[0], d[1])))
        if n >= 2:
            forms.append(('_many', '%s.convolve_many(vec![%s])' % (d[0], ', '.join(d[1:]))))
        for suf, e in forms:
            out.append(RCase('%s%s_%d' % (name, suf, n), 'match %s { Ok(r) => { %s 1 } Err(_) => 0 }' % (e, put), na=na, no=no, core=False, pre=pre,
                             post=lambda c, f=post, lax=bool(suf) and n == 2: f(c, lax=lax)))
    return out


def accept(c, ok, lax=False):
    """lax: the list form given a single variable may also decline"""
    one = same(c.ret, bv(1, 64))
    return HOLDS('accepts exactly the sums that stay in the family', imp(one, ok) if lax else iff(one, ok))


def prob(p): return [ge(p, Z), le(p, ONE)]


def alleq(xs): return ands([TRUE] + [eqf(x, y) for x, y in zip(xs, xs[1:])])


def isum(xs):
    s = xs[0]
    for x in xs[1:]:
        s = tm.ibin('add', s, x)
    return s


def cases(tier):
    out = []
    S = range(2, 10) if tier == 'quick' else range(2, 15)
    two = lambda n: 'let p = r.params(); O(o,0,p.%s.0); O(o,1,p.%s.0);' % n
    out += fam('normal', lambda a: 'UvNormal::new(%s, %s)?'.replace('?', '.unwrap()') % tuple(a), 2, 'O(o,0,r.mean()); O(o,1,r.variance());', 2, lambda p: [gt(p[1], Z)],
               lambda ps: [fsum(p[0] for p in ps), fsum(p[1] for p in ps)], S)
    out += fam('cauchy', lambda a: 'Cauchy::new(%s, %s).unwrap()' % tuple(a), 2, two(('x0', 'gamma')), 2, lambda p: [gt(p[1], Z)],
               lambda ps: [fsum(p[0] for p in ps), fsum(p[1] for p in ps)], S)
    out += fam('poisson', lambda a: 'Poisson::new(%s).unwrap()' % a[0], 1, 'O(o,0,r.params().lambda.0);', 1, lambda p: [gt(p[0], Z)],
               lambda ps: [fsum(p[0] for p in ps)], S)
    out += fam('gamma', lambda a: 'Gamma::new(%s, %s).unwrap()' % tuple(a), 2, two(('alpha', 'beta')), 2, lambda p: [gt(p[0], Z), gt(p[1], Z)],
               lambda ps: [fsum(p[0] for p in ps), ps[0][1]], S, eqs=lambda ps: alleq([p[1] for p in ps]))
    # gamma plus exponentials
    for n in (1, 2, 3, 4, 5):
        e = ['Exponential::new(A(a,%d)).unwrap()' % (2 + i) for i in range(n)]
        for suf, ex in ([('', 'convolve(%s)' % e[0])] if n == 1 else []) + [('_many', 'convolve_many(vec![%s])' % ', '.join(e))]:
            out.append(RCase('gamma_exponential%s_%d' % (suf, n), 'match Gamma::new(A(a,0), A(a,1)).unwrap().%s { Ok(r) => { %s 1 } Err(_) => 0 }' % (ex, two(('alpha', 'beta'))),
                             na=2 + n, no=2, core=False, pre=lambda c, n=n: [gt(c.a[i], Z) for i in range(2 + n)],
                             post=lambda c, n=n, lax=bool(suf) and n == 1: [accept(c, alleq([c.a[i] for i in range(1, 2 + n)]), lax)] +
                             ([EQ('alpha', c.o(0), c.a[0] + n), EQ('beta', c.o(1), c.a[1])] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    pr = lambda i: 'Probability::new(A(a,%d)).unwrap()' % i
    # Bernoulli + Bernoulli, Binomial + Bernoulli, Binomial + Binomial
    bb = 'let p = r.params(); O(o,0,f64::from(p.p)); OI(o,1,p.n.0 as i64);'
    def bins(name, expr, m, N):
        out.append(RCase(name, 'match %s { Ok(r) => { %s 1 } Err(_) => 0 }' % (expr, bb), na=m, no=2, core=False,
                         pre=lambda c: [x for i in range(m) for x in prob(c.a[i])],
                         post=lambda c: [accept(c, alleq([c.a[i] for i in range(m)]), name == 'bernoulli_many_2')] +
                         ([EQ('p', c.o(0), c.a[0]), HOLDS('n', same(c.oi(1), bv(N, 64)))] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    be = lambda i: 'Bernoulli::new(A(a,%d)).unwrap()' % i
    bi = lambda n, i: 'Binomial::new(%d, %s).unwrap()' % (n, pr(i))
    bins('bernoulli', '%s.convolve(%s)' % (be(0), be(1)), 2, 2)
    bins('bernoulli_many_2', '%s.convolve_many(vec![%s])' % (be(0), be(1)), 2, 2)
    bins('bernoulli_many_3', '%s.convolve_many(vec![%s, %s])' % (be(0), be(1), be(2)), 3, 3)
    bins('bernoulli_many_4', '%s.convolve_many(vec![%s, %s, %s])' % (be(0), be(1), be(2), be(3)), 4, 4)
    for n in (0, 1, 2, 7):
        bins('binomial_bernoulli_%d' % n, '%s.convolve(%s)' % (bi(n, 0), be(1)), 2, n + 1)
        for m in (0, 1, 3, 7):
            bins('binomial_%d_%d' % (n, m), '%s.convolve(%s)' % (bi(n, 0), bi(m, 1)), 2, n + m)
    bins('binomial_many_3', '%s.convolve_many(vec![%s, %s])' % (bi(2, 0), bi(3, 1), bi(4, 2)), 3, 9)
    out.append(RCase('none', 'match UvNormal::new(A(a,0), A(a,1)).unwrap().convolve_many(vec![]) { Ok(r) => { O(o,0,r.mean()); O(o,1,r.variance()); 1 } Err(_) => 0 }', na=2, no=2, core=False,
                     pre=lambda c: [gt(c.a[1], Z)], post=lambda c: [EQ('mean', c.o(0), c.a[0]), EQ('variance', c.o(1), c.a[1])] if c.ret.op == 'c' and c.ret.args[0] == 1 else []))
    # symbolic counts and degrees of freedom
    rng = lambda c, k: [between(c.n[i], 1, 1 << 40) for i in range(k)]
    any_n = lambda c, k: [between(c.n[i], 0, 1 << 40) for i in range(k)]
    for nm, ex, k in (('same', 'Binomial::new(N(n,0) as usize, %s).unwrap().convolve(Binomial::new(N(n,1) as usize, %s).unwrap())' % (pr(0), pr(0)), 2),
                      ('bernoulli', '%s.convolve(%s)' % (bi(0, 0).replace('(0', '(N(n,0) as usize', 1), be(1)), 1),
                      ('two', 'Binomial::new(N(n,0) as usize, %s).unwrap().convolve(Binomial::new(N(n,1) as usize, %s).unwrap())' % (pr(0), pr(1)), 2),
                      ('many', 'Binomial::new(N(n,0) as usize, %s).unwrap().convolve_many(vec![Binomial::new(N(n,1) as usize, %s).unwrap(), Binomial::new(N(n,2) as usize, %s).unwrap()])' % (pr(0), pr(1), pr(2)), 3)):
        m = {'same': 1, 'bernoulli': 2, 'two': 2, 'many': 3}[nm]
        out.append(RCase('binomial_counts_' + nm, 'match %s { Ok(r) => { %s 1 } Err(_) => 0 }' % (ex, bb),
                         na=m, nn=k, no=2, core=False, pre=lambda c, m=m, k=k: [x for i in range(m) for x in prob(c.a[i])] + any_n(c, k),
                         post=lambda c, m=m, k=k: [accept(c, alleq([c.a[i] for i in range(m)]))] +
                         ([EQ('p', c.o(0), c.a[0]), HOLDS('n', same(c.oi(1), isum([c.n[i] for i in range(k)] + ([bv(1, 64)] if k < m else []))))]
                          if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    for m in (2, 3):
        ks = ['ChiSq::new(N(n,%d) as usize).unwrap()' % i for i in range(m)]
        for suf, e in ([('', 'convolve(%s)' % ks[1])] if m == 2 else []) + [('_many', 'convolve_many(vec![%s])' % ', '.join(ks[1:]))]:
            out.append(RCase('chi_sq%s_%d' % (suf, m), 'match %s.%s { Ok(r) => { OI(o,0,r.params().k.0 as i64); 1 } Err(_) => 0 }' % (ks[0], e), nn=m, no=1, core=False,
                             pre=lambda c, m=m: rng(c, m),
                             post=lambda c, m=m, lax=bool(suf) and m == 2: [accept(c, TRUE, lax)] + ([] if c.oi(0) is None else [HOLDS('k', same(c.oi(0), isum(c.n[:m])))])))
    return out


BOUNDS = 'sums of up to 9 variables (14 thorough), every valid real parameter; counts and degrees of freedom up to 2^40 where symbolic, else the listed values'
ASSUME = ['exact real arithmetic']
