"""C05: combinatorial functions."""
import math
from fractions import Fraction
import mpmath
from dists import *

TITLE = 'Factorials, log-factorials and binomial coefficients are exact'
HELPERS = ''
CORE = True


def tab(vals, idx):
    return tm.mk('tab', (tuple(vals), idx), 64)


def ftab(vals, idx):
    return tm.mk('tab', (tuple(f64(v).args[0] for v in vals), idx), 'f')


def cases(tier):
    out = []
    facts = [math.factorial(i) for i in range(21)]
    for fn in ('factorial', 'factorial_exact'):
        out.append(Case(fn, 'OI(o, 0, crate::utils::%s(N(n,0) as u64) as i64); 0' % fn, nn=1,
                        pre=lambda c: [icmp('ult', c.n[0], bv(21, 64))],
                        post=lambda c: [('n! for n <= 20', same(c.oi(0), tab(facts, c.n[0])))]))
        out.append(Case(fn + '_big', 'OI(o, 0, crate::utils::%s(N(n,0) as u64) as i64); 0' % fn, fn=fn, nn=1,
                        pre=lambda c: [icmp('ult', bv(20, 64), c.n[0]), icmp('ult', c.n[0], bv(30, 64))],
                        post=lambda c: [('no wrapped value is returned for n > 20 when arithmetic is checked', FALSE)],
                        panics=lambda c: TRUE))
    mpmath.mp.dps = 40
    lf = [mpmath.loggamma(i + 1) if i > 1 else mpmath.mpf(0) for i in range(255)]
    tol = mpmath.mpf(10) ** -15 * 2
    lo = [float(x - abs(x) * tol) for x in lf]
    hi = [float(x + abs(x) * tol) for x in lf]
    out.append(Case('log_factorial_table', 'O(o, 0, crate::utils::log_factorial_stirling(N(n,0) as u64)); 0', nn=1,
                    pre=lambda c: [icmp('ult', c.n[0], bv(255, 64))],
                    post=lambda c: [('ln n! within 2e-15 relative, n <= 254',
                                     band(le(ftab(lo, c.n[0]), c.o(0)), le(c.o(0), ftab(hi, c.n[0]))))]))
    # beyond the table: the asymptotic series, between its two-term sum and that minus the next term
    def series(c):
        x = tm.itof(False, c.n[0]) + 1
        s = STIRLING(tm.itof(False, c.n[0]))
        eps = R(1, 10 ** 11)
        return [('ge', 'not above ln n!', s + eps, c.o(0)), ('ge', 'not below ln n!', c.o(0), s - 1 / (300 * x ** 3) - eps)]
    for nm, a, b in (('near', 255, 1000), ('far', 255, 1 << 53)):
        out.append(RCase('log_factorial_series_' + nm, 'O(o, 0, crate::utils::log_factorial_stirling(N(n,0) as u64)); 0', fn='log_factorial_stirling', nn=1, core=True, tol=1e-11,
                         pre=lambda c, a=a, b=b: [between(c.n[0], a, b)], post=series))
    top = 62
    for n in range(top + 1):
        vals = [math.comb(n, k) for k in range(n + 1)]
        out.append(Case('choose_%d' % n, 'OI(o, 0, crate::utils::choose(N(n,0) as u64, N(n,1) as u64) as i64); 0', fn='choose', nn=2,
                        fix={'n0': n},
                        pre=lambda c, n=n: [icmp('ult', c.n[1], bv(n + 1, 64))],
                        post=lambda c, vals=vals: [('C(n,k)', same(c.oi(0), tab(vals, c.n[1])))]))
    # larger n: every k whose computation fits in 64 bits
    def fits(n, k):
        acc = 1
        for i in range(min(k, n - k)):
            if acc * (n - i) >= 1 << 64:
                return False
            acc = acc * (n - i) // (i + 1)
        return True
    big = list(range(63, 131)) + [150, 170, 171, 200, 254, 255, 256, 257, 300, 500, 511, 512, 1000, 1024, 4096, 65535, 65536, 10 ** 6]
    if tier != 'quick':
        big = sorted(set(big) | set(range(131, 400)) | {2000, 5000, 10 ** 5, 10 ** 7, 10 ** 9})
    for n in big:
        km = 0
        while km < n // 2 and fits(n, km + 1):
            km += 1
        vals = [math.comb(n, k) for k in range(km + 1)]
        out.append(Case('choose_%d' % n, 'OI(o, 0, crate::utils::choose(N(n,0) as u64, N(n,1) as u64) as i64); 0', fn='choose', nn=2,
                        fix={'n0': n},
                        pre=lambda c, km=km: [icmp('ult', c.n[1], bv(km + 1, 64))],
                        post=lambda c, vals=vals: [('C(n,k)', same(c.oi(0), tab(vals, c.n[1])))]))
        out.append(Case('choose_%d_top' % n, 'OI(o, 0, crate::utils::choose(N(n,0) as u64, (N(n,0) as u64) - (N(n,1) as u64)) as i64); 0',
                        fn='choose_sym', nn=2, fix={'n0': n},
                        pre=lambda c, km=km: [icmp('ult', c.n[1], bv(km + 1, 64))],
                        post=lambda c, vals=vals: [('C(n,n-k)', same(c.oi(0), tab(vals, c.n[1])))]))
    # every n with small k: the falling factorial divided step by step
    for k, lim in ((3, 2642245), (4, 65536), (5, 7131), (6, 1625)):
        def steps(n, k=k):
            acc = bv(1, 64)
            for i in range(k):
                acc = tm.ibin('udiv', tm.ibin('mul', acc, tm.ibin('sub', n, bv(i, 64))), bv(i + 1, 64))
            return acc
        out.append(Case('choose_k%d' % k, '', fn='choose', nn=2, fix={'n1': k},
                        pre=lambda c, k=k, lim=lim: [icmp('ult', bv(2 * k, 64), c.n[0]), ule(c.n[0], lim)],
                        post=lambda c, f=steps, k=k: [('C(n,%d) for every n' % k, same(c.oi(0), f(c.n[0])))]))
        out.append(Case('choose_nk%d' % k, 'OI(o, 0, crate::utils::choose(N(n,0) as u64, (N(n,0) as u64) - (N(n,1) as u64)) as i64); 0',
                        fn='choose_sym', nn=2, fix={'n1': k},
                        pre=lambda c, k=k, lim=lim: [icmp('ult', bv(2 * k, 64), c.n[0]), ule(c.n[0], lim)],
                        post=lambda c, f=steps, k=k: [('C(n,n-%d) for every n' % k, same(c.oi(0), f(c.n[0])))]))
    out.append(Case('choose_over', '', fn='choose', nn=2, pre=lambda c: [icmp('ult', c.n[0], c.n[1])], max_paths=200,
                    post=lambda c: [('C(n,k) = 0 for k > n', same(c.oi(0), bv(0, 64)))]))
    # every n, small k on either end
    for k, f in ((0, lambda n: bv(1, 64)), (1, lambda n: n),
                 (2, lambda n: tm.ibin('udiv', tm.ibin('mul', n, tm.ibin('sub', n, bv(1, 64))), bv(2, 64)))):
        lim = (1 << 64) - 1 if k < 2 else 1 << 32
        out.append(Case('choose_k%d' % k, '', fn='choose', nn=2, fix={'n1': k},
                        pre=lambda c, k=k, lim=lim: [icmp('ult', bv(4, 64), c.n[0]), ule(c.n[0], lim)],
                        post=lambda c, f=f: [('C(n,%d) for every n' % k, same(c.oi(0), f(c.n[0])))]))
        out.append(Case('choose_nk%d' % k, 'OI(o, 0, crate::utils::choose(N(n,0) as u64, (N(n,0) as u64) - (N(n,1) as u64)) as i64); 0',
                        fn='choose_sym', nn=2, fix={'n1': k},
                        pre=lambda c, k=k, lim=lim: [icmp('ult', bv(4, 64), c.n[0]), ule(c.n[0], lim)],
                        post=lambda c, f=f: [('C(n,n-%d) for every n' % k, same(c.oi(0), f(c.n[0])))]))
    return out


BOUNDS = ['factorial: every n <= 20 (all that fit in u64); overflow behaviour for 20 < n < 30',
          'choose: every n <= 62 and k <= n; every k whose computation fits in 64 bits (and its mirror image) for 63 <= n <= 130 and larger listed n; zero for every k > n; '
          'every n with k or n - k at most 6, up to the largest n at which the product fits',
          'log-factorial: every n <= 254 to a relative error of 2e-15; every 254 < n <= 2^53 over the reals, to 1/(300 (n + 1)^3) + 1e-11']
ASSUME = ['arithmetic overflow checks on, as in the dev profile', 'beyond the table the logarithm is read over the reals']
