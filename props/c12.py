"""C12: modes."""
from dists import *

TITLE = 'The reported modes are exactly the points of largest density'
HELPERS = HEAD + '''
unsafe fn arr<const K: usize>(a: *const f64) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, i) } r }
'''
CORE = False


def fsumi(xs):
    r = bv(0, 64)
    for x in xs:
        r = tm.ibin('add', r, x)
    return r


def cases(tier):
    out = []
    for I in insts(few=None, sym=True):
        s = I.spec('modes')
        if s is None:
            continue
        for suf, cond, val in pieces(s, 1):
            def pre(c, cond=cond, I=I):
                return I.pre(c) + (cond(I.p(c)) if cond else [])
            if never(pre(dummy(I))):
                continue
            conv = {'bool': 'if *m { 1.0 } else { 0.0 }', 'f': '*m'}.get(I.d.x, '*m as f64')
            # a set of modes is compared by its size, sum and product
            body = I.body('let ms = d.modes(); let (mut s, mut p) = (0.0, 1.0); for m in ms.iter() { let v: f64 = %s; s += v; p *= v; } O(o,0,s); O(o,1,p); OI(o,2,ms.len() as i64);' % conv)

            def post(c, val=val, I=I):
                w = val(I.p(c))
                return constructed(c) + [HOLDS('%d mode%s' % (len(w), 's' * (len(w) != 1)), same(c.oi(2), bv(len(w), 64))),
                                         EQ('the mode' if len(w) == 1 else 'sum of the modes', c.o(0), fsum(w))] + (
                    [EQ('product of the modes', c.o(1), fprod(w))] if len(w) > 1 else [])
            out.append(RCase('%s_modes%s' % (I.tag, suf), body, fn=I.tag + '_modes', na=I.na, nn=I.nn, no=3, core=False, pre=pre, hints=I.d.hints, post=post))
    # categorical: ties matter, so decided on doubles
    for k in range(1, 5) if tier == 'quick' else range(1, 6):
        def cat(c, k=k):
            r = [('modes are listed once', same(c.oi(k), fsumi([c.oi(i) for i in range(k)])))]
            for i in range(k):
                r.append(('category %d is a mode exactly when no other is likelier' % i, iff(same(c.oi(i), bv(1, 64)), ands([ge(c.a[i], c.a[j]) for j in range(k)]))))
            return r
        out.append(Case('categorical_%d_modes' % k, 'let d = crate::univariate::categorical::Categorical::<%d>::new_unchecked(arr::<%d>(a)); let ms = d.modes(); for i in 0..%d { OI(o,i,ms.contains(&i) as i64); } OI(o,%d,ms.len() as i64); 1' % (k, k, k, k),
                        na=k, no=k + 1, core=False, pre=lambda c, k=k: [band(ge(c.a[i], Z), le(c.a[i], ONE)) for i in range(k)], post=cat))
    for k in (5,) if tier == 'quick' else (5, 6, 7):
        out.append(RCase('categorical_%d_modes_real' % k, 'let d = crate::univariate::categorical::Categorical::<%d>::new_unchecked(arr::<%d>(a)); let ms = d.modes(); for i in 0..%d { OI(o,i,ms.contains(&i) as i64); } OI(o,%d,ms.len() as i64); 1' % (k, k, k, k),
                         na=k, no=k + 1, core=False, pre=lambda c, k=k: [band(ge(c.a[i], Z), le(c.a[i], ONE)) for i in range(k)],
                         post=lambda c, cat=cat, k=k: [HOLDS(l, t) for l, t in cat(c, k)]))
    # away from zero the density of |N(mu, sigma)| peaks where x = |mu| tanh(|mu| x / sigma^2), always below |mu|
    def folded(c):
        m, mu, sg = c.o(0), absf(c.a[0]), c.a[1]
        e = exp(-2 * mu * m / (sg * sg))
        return constructed(c) + [HOLDS('one mode', same(c.oi(1), bv(1, 64))), HOLDS('it lies between zero and |mu|', band(gt(m, Z), le(m, mu))),
                                 EQ('the density is stationary there', m, mu * (1 - e) / (1 + e))]
    out.append(RCase('folded_normal_modes_far', 'match crate::univariate::folded_normal::FoldedNormal::new(A(a,0), A(a,1)) { Ok(d) => { let ms = d.modes(); O(o,0,ms[0]); OI(o,1,ms.len() as i64); 1 } Err(_) => 0 }',
                     na=2, no=2, core=False, pre=lambda c: [gt(c.a[1], Z), bor(gt(c.a[0], c.a[1]), lt(c.a[0], -c.a[1]))], post=folded, hints={'a0': (1, 3), 'a1': (0.5, 2)}))
    # integer-valued modes: the floor of a number x, and its predecessor too when x is an integer
    law = 'let ms = d.modes(); O(o,0,ms[0] as f64); O(o,1,ms[ms.len() - 1] as f64); ms.len() as i64'
    un = 'crate::univariate::'
    for nm, ctor, x, pre, na, nn in (
            ('binomial', un + 'binomial::Binomial::new(N(n,0) as usize, Probability::new_unchecked(A(a,0)))', lambda c: (tm.itof(False, c.n[0]) + 1) * c.a[0],
             lambda c: [gt(c.a[0], Z), lt(c.a[0], ONE), between(c.n[0], 0, BIG)], 1, 1),
            ('poisson', un + 'poisson::Poisson::new(A(a,0))', lambda c: c.a[0], lambda c: [gt(c.a[0], Z), lt(c.a[0], f64(2.0 ** 53))], 1, 0)):
        def post(c, x=x):
            v = c.ret.args[0] if c.ret.op == 'c' else None
            m, l = c.o(0), c.o(1)
            if v == 1:
                return [HOLDS('the only mode is the largest integer below x', ands([lt(m, x(c)), lt(x(c), m + 1), ge(m, Z)]))]
            if v == 2:
                return [EQ('the second mode', l, x(c)), EQ('the first mode', m, x(c) - 1)]
            return [HOLDS('one or two modes', FALSE)]
        out.append(RCase(nm + '_modes_law', 'match %s { Ok(d) => { %s } Err(_) => 0 }' % (ctor, law), na=na, nn=nn, no=2, core=False, pre=pre, post=post,
                         hints={'n0': (0, 40), 'a0': (0.01, 0.99)} if nm == 'binomial' else {'a0': (0.01, 30)}))
    return out


BOUNDS = ['every real parameter; integer parameters: every value from 1 to 10^9 where the formula is closed in them (binomial, beta-binomial, chi, chi-square, Erlang, F), small listed values otherwise; categorical: up to 4 categories on doubles, 5 (7 in the thorough tier) over the reals']
ASSUME = ['exact real arithmetic; the categorical distribution on doubles']
