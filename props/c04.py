"""C04: probability vectors."""
from common import *

TITLE = 'A SimplexVector is always a probability vector and samples indices in proportion'
HELPERS = '''
use crate::*;
use crate::params::Param;
use std::convert::TryFrom;
unsafe fn arr<const K: usize>(a: *const f64) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, i) } r }
'''
CORE = False
prob = lambda x: band(ge(x, Z), le(x, ONE))


def total(c, K):
    s = Z
    for i in range(K):
        s = tm.fbin('fadd', s, c.a[i])
    return s


def cases(tier):
    out = []
    Ks = range(0, 10) if tier == 'quick' else range(0, 17)
    for K in Ks:
        for nm, e in (('new', 'SimplexVector::<%d>::new(arr::<%d>(a))' % (K, K)), ('try_from', 'SimplexVector::<%d>::try_from(arr::<%d>(a))' % (K, K))):
            def ok(c, K=K):
                near = lt(tm.fun('fabs', tm.fbin('fsub', total(c, K), ONE)), f64(1e-5))
                return ands([prob(c.a[i]) for i in range(K)] + [near])
            out.append(Case('%s_%d' % (nm, K), 'match %s { Ok(s) => { let v = s.value().clone(); let w = s.into_value(); for i in 0..%d { O(o,i,v[i]); O(o,%d+i,w[i]); } 1 } Err(_) => { for i in 0..%d { O(o,i,A(a,i)); O(o,%d+i,A(a,i)); } 0 } }' % (e, K, K, K, K),
                            na=K, no=2 * K, post=lambda c, ok=ok, K=K: [('accepts exactly the probability vectors (to 1e-5)', iff(retis(c, 1), ok(c)))] +
                            [('keeps entry %d' % (i % K), fsame(c, i, c.a[i % K])) for i in range(2 * K)]))
        if K == 0:
            continue
        out.append(Case('unchecked_%d' % K, 'let s = SimplexVector::<%d>::new_unchecked(arr::<%d>(a)); let d = *s; let u = s.unwrap(); for i in 0..%d { O(o,i,d[i]); O(o,%d+i,u[i]) } 0' % (K, K, K, K), na=K, no=2 * K,
                        post=lambda c, K=K: [('keeps entry %d' % (i % K), fsame(c, i, c.a[i % K])) for i in range(2 * K)]))
        out.append(Case('centre_%d' % K, 'let u = SimplexVector::<%d>::centre().unwrap(); for i in 0..%d { O(o,i,u[i]) } 0' % (K, K), no=K,
                        post=lambda c, K=K: [('every entry is 1/K', eqf(c.o(i), f64(1.0 / K))) for i in range(K)]))

        def simplex(c, K=K):
            return [ge(c.a[i], Z) for i in range(K)] + [eqf(fsum([c.a[i] for i in range(K)]), ONE)]

        def idx(c, K=K):
            r, s = [], R0
            u = c.draws[0][2] if c.draws else None
            if u is None:
                return [HOLDS('draws one number', FALSE)]
            cum = [R0]
            for i in range(K):
                cum.append(cum[-1] + c.a[i])
            for i in range(K):
                inside = band(ge(u, cum[i]), lt(u, cum[i + 1]))
                r.append(HOLDS('index %d exactly on its own interval' % i, iff(same(c.ret, bv(i, 64)), inside)))
            return r
        R0 = tm.rat(0)
        out.append(RCase('sample_index_%d' % K, 'SimplexVector::<%d>::new_unchecked(arr::<%d>(a)).sample_index(&mut rand::thread_rng()) as i64' % (K, K), na=K,
                         pre=simplex, post=idx, hints={'a%d' % i: (0.0, 1.0) for i in range(K)}))

        def indom(c, K=K):
            return [ands([bnot(icmp('ult', bv(K - 1, 64), c.ret))])]
        out.append(Case('index_in_range_%d' % K, 'SimplexVector::<%d>::new_unchecked(arr::<%d>(a)).sample_index(&mut rand::thread_rng()) as i64' % (K, K), na=K,
                        post=lambda c, K=K: [('the index is in range for any entries whatever', ule(c.ret, K - 1))]))

        def possible(c, K=K):
            return [('an index of probability zero is never drawn', ands([imp(same(c.ret, bv(i, 64)), gt(c.a[i], Z)) for i in range(K)])), ('the index is in range', ule(c.ret, K - 1))]
        if K <= 5:
          out.append(Case('index_possible_%d' % K, 'SimplexVector::<%d>::new_unchecked(arr::<%d>(a)).sample_index(&mut rand::thread_rng()) as i64' % (K, K), na=K,
                        pre=lambda c, K=K: [band(ge(c.a[i], Z), le(c.a[i], ONE)) for i in range(K)] + [ors([gt(c.a[i], Z) for i in range(K)])], post=possible))

        def onsimplex(c, K=K):
            xs = [c.o(i) for i in range(K)]
            r = [EQ('sums to one', fsum(xs), R0 + 1)]
            r += [GE('entry %d is not negative' % i, xs[i], R0) for i in range(K)]
            return r
        if K <= 4:
            inner = lambda ds: [gt(d[2], Z) for d in ds] + [lt(d[2], ONE) for d in ds]
            out.append(RCase('sample_%d' % K, 'let s = SimplexVector::<%d>::sample(&mut rand::thread_rng()).unwrap(); for i in 0..%d { O(o,i,s[i]) } 0' % (K, K), no=K, pre=None, post=onsimplex, dpre=inner,
                             hints={'draw%d' % i: (0.01, 0.99) for i in range(8)}))
    return out


BOUNDS = ['vectors of length 0..9 (16 in the thorough tier); construction over every f64 bit pattern, sampling over the reals for every draw in its range']
ASSUME = ['a uniform draw is an arbitrary number of its documented range; for SimplexVector::sample its two end points, which have probability zero, are left out']
