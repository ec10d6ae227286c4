"""C09: quantile functions and what is derived from them."""
from dists import *

TITLE = 'Quantiles, quartiles, medians and fences are those of the distribution'
HELPERS = HEAD
CORE = False


def cases(tier):
    out = []
    for I in insts(few=None, sym=True):
        q = I.spec('quantile')
        if q is not None:
            qp = lambda x: [gt(x, Z), lt(x, ONE)]
            out += arg_case(I, 'quantile', 'd.quantile(Probability::new_unchecked({q}))', q, 'Q(q)', xpre=qp)
            out += arg_case(I, 'cquantile', 'd.cquantile(Probability::new_unchecked({q}))', lambda p, x, q=q: q(p, 1 - x), 'Q(1 - q)', xpre=qp)
            at = lambda v, q=q: (lambda p: q(p, R(v[0], v[1])))
            out += scalar_case(I, 'lower_quartile', 'd.lower_quartile()', at((1, 4)), 'Q(1/4)')
            out += scalar_case(I, 'upper_quartile', 'd.upper_quartile()', at((3, 4)), 'Q(3/4)')
            iqr = lambda p, q=q: q(p, R(3, 4)) - q(p, R(1, 4))
            out += scalar_case(I, 'iqr', 'd.iqr()', iqr, 'Q(3/4) - Q(1/4)')
            out += scalar_case(I, 'lower_fence', 'd.lower_fence()', lambda p, q=q, iqr=iqr: q(p, R(1, 4)) - R(3, 2) * iqr(p), 'Q(1/4) - 1.5 IQR')
            out += scalar_case(I, 'upper_fence', 'd.upper_fence()', lambda p, q=q, iqr=iqr: q(p, R(3, 4)) + R(3, 2) * iqr(p), 'Q(3/4) + 1.5 IQR')
        m = I.spec('median')
        if m is not None:
            out += scalar_case(I, 'median', 'd.median()', m, 'median')
        for nm, f in (I.spec('extra') or {}).items():
            out += scalar_case(I, nm, 'd.%s()' % nm, f, nm)
    # integer-valued medians and quantiles
    un = 'crate::univariate::'
    F = lambda n: tm.itof(False, n)
    out.append(RCase('geometric_median_law', 'match %sgeometric::Geometric::new(A(a,0)) { Ok(d) => { O(o,0,d.median()); 1 } Err(_) => 0 }' % un, na=1, core=False, hints={'a0': (0.001, 0.99)},
                     pre=lambda c: [gt(c.a[0], Z), lt(c.a[0], ONE)],
                     post=lambda c: constructed(c) + [HOLDS('P(X <= m) >= 1/2', ge(-((c.o(0) + 1) * ln(1 - c.a[0])), ln(R(2)))), HOLDS('m >= 0', ge(c.o(0), Z)),
                                                      HOLDS('P(X < m) < 1/2', bor(le(c.o(0), Z), lt(-(c.o(0) * ln(1 - c.a[0])), ln(R(2)))))]))
    out.append(RCase('binomial_median_law', 'match %sbinomial::Binomial::new(N(n,0) as usize, Probability::new_unchecked(A(a,0))) { Ok(d) => { O(o,0,d.median()); 1 } Err(_) => 0 }' % un, na=1, nn=1, core=False,
                     hints={'n0': (0, 40), 'a0': (0.01, 0.99)}, pre=lambda c: [gt(c.a[0], Z), lt(c.a[0], ONE), between(c.n[0], 1, BIG)],
                     post=lambda c: constructed(c) + [HOLDS('within one of the mean', band(lt(c.o(0) - 1, F(c.n[0]) * c.a[0]), lt(F(c.n[0]) * c.a[0] - 1, c.o(0)))),
                                                      HOLDS('a possible value', band(ge(c.o(0), Z), le(c.o(0), F(c.n[0]))))]))
    out.append(RCase('poisson_median_law', 'match %spoisson::Poisson::new(A(a,0)) { Ok(d) => { O(o,0,d.median()); 1 } Err(_) => 0 }' % un, na=1, core=False,
                     hints={'a0': (0.01, 20)}, pre=lambda c: [gt(c.a[0], Z)],
                     post=lambda c: constructed(c) + [HOLDS('at least the rate less 0.7', ge(c.o(0), c.a[0] - R(7, 10))), HOLDS('at most the rate plus 1/3', le(c.o(0), c.a[0] + R(1, 3))),
                                                      HOLDS('a possible value', ge(c.o(0), Z))]))
    k = lambda c: F(c.n[0])
    for nm, v in (('chi_sq', lambda c: c.o(0)), ('chi', lambda c: c.o(0) ** 2)):
        cn = ''.join(w.capitalize() for w in nm.split('_'))
        out.append(RCase(nm + '_median_law', 'match %s%s::%s::new(N(n,0) as usize) { Ok(d) => { O(o,0,d.median()); 1 } Err(_) => 0 }' % (un, nm, cn), nn=1, core=False,
                         hints={'n0': (1, 40)}, pre=lambda c: [between(c.n[0], 1, BIG)],
                         post=lambda c, v=v: constructed(c) + [HOLDS('positive', gt(c.o(0), Z)), HOLDS('at least that of k - 2/3', ge(v(c), k(c) - R(2, 3))), HOLDS('at most that of k - 1/2', le(v(c), k(c) - R(1, 2)))]))
    bm = 'match %sbeta::Beta::new(%%s) { Ok(d) => { O(o,0,d.median()); 1 } Err(_) => 0 }' % un
    a_, b_ = lambda c: c.a[0], lambda c: c.a[1]
    out.append(RCase('beta_median_between', bm % 'A(a,0), A(a,1)', na=2, core=False, hints={'a0': (1.01, 9), 'a1': (1.01, 9)}, pre=lambda c: [gt(a_(c), 1 + R(1, 10 ** 6)), gt(b_(c), a_(c) * R(1000001, 1000000))],
                     post=lambda c: constructed(c) + [HOLDS('at least the mode', ge(c.o(0) * (a_(c) + b_(c) - 2), a_(c) - 1)), HOLDS('at most the mean', le(c.o(0) * (a_(c) + b_(c)), a_(c)))]))
    out.append(RCase('beta_median_between_mirrored', bm % 'A(a,0), A(a,1)', na=2, core=False, hints={'a0': (1.01, 9), 'a1': (1.01, 9)}, pre=lambda c: [gt(b_(c), 1 + R(1, 10 ** 6)), gt(a_(c), b_(c) * R(1000001, 1000000))],
                     post=lambda c: constructed(c) + [HOLDS('at most the mode', le(c.o(0) * (a_(c) + b_(c) - 2), a_(c) - 1)), HOLDS('at least the mean', ge(c.o(0) * (a_(c) + b_(c)), a_(c)))]))
    for nm, arg, val in (('symmetric', 'A(a,0), A(a,0)', lambda a: R(1, 2)), ('first_one', '1.0, A(a,0)', lambda a: 1 - pw(R(2), -1 / a)), ('second_one', 'A(a,0), 1.0', lambda a: pw(R(2), -1 / a)),
                         ('3_2', '3.0, 2.0 + 0.0 * A(a,0)', lambda a: f64(0.6142724318676105)), ('2_3', '2.0 + 0.0 * A(a,0), 3.0', lambda a: f64(0.38572756813238945))):
        out.append(RCase('beta_median_' + nm, bm % arg, na=1, core=False, hints={'a0': (0.1, 9)}, pre=lambda c: [gt(c.a[0], Z), bor(lt(c.a[0], 1 - R(1, 10 ** 6)), gt(c.a[0], 1 + R(1, 10 ** 6)))], post=lambda c, val=val: constructed(c) + [EQ('median', c.o(0), val(c.a[0]))]))
    lb, w = lambda c: tm.itof(True, c.n[0]), lambda c: F(c.n[1])
    for fn, q in (('quantile', lambda c: c.a[0]), ('cquantile', lambda c: 1 - c.a[0])):
        out.append(RCase('uniform_int_%s_law' % fn, 'match %suniform::Uniform::<i64>::new(N(n,0), N(n,1) as u64) { Ok(d) => { O(o,0,d.%s(Probability::new_unchecked(A(a,0)))); 1 } Err(_) => 0 }' % (un, fn), na=1, nn=2, core=False,
                         hints={'n0': (-20, 20), 'n1': (1, 12), 'a0': (0.01, 0.99)}, pre=lambda c: [ge(c.a[0], Z), le(c.a[0], ONE), sbetween(c.n[0], -BIG, BIG), between(c.n[1], 1, BIG)],
                         post=lambda c, q=q: constructed(c) + [HOLDS('F(Q(q)) >= q', ge(c.o(0) - lb(c) + 1, q(c) * (w(c) + 1))), HOLDS('F just below Q(q) is below q', bor(le(c.o(0), lb(c)), lt(c.o(0) - lb(c), q(c) * (w(c) + 1)))),
                                                          HOLDS('a possible value', band(ge(c.o(0), lb(c)), le(c.o(0), lb(c) + w(c))))]))
    return out


BOUNDS = ['every real parameter and every q in (0, 1); integer parameters: the listed small values']
ASSUME = ['exact real arithmetic; special functions compute the functions they name',
          'the binomial, Poisson, chi, chi-squared and beta medians are approximations: only required to lie in the known intervals around the true median (exact where a beta shape is one or both are equal); unimplemented quantile functions are out of scope']
