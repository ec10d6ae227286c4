"""C18: sampling. Every source of randomness is a symbolic draw with a known law;
the value returned must have the law of the distribution sampled."""
from dists import *
from laws import *

TITLE = 'Samples follow the distribution they are drawn from'
HELPERS = HEAD + '''
pub struct Rg;
impl rand::RngCore for Rg {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, _: &mut [u8]) {}
}
'''
CORE = False
DD = {d.name: d for d in DISTS}


def whole(t):
    """an integer parameter as a machine integer"""
    return t.args[0] if t.op in ('uitofp', 'sitofp') else bv(iv(t) & (2 ** 64 - 1), 64)


def cases(tier):
    out = []

    def cont(I, posts, dpre=interior, suf=''):
        out.append(RCase('%s_sample%s' % (I.tag, suf), I.body('O(o,0,d.sample(&mut Rg)%s);' % (' as f64' if I.d.x != 'f' else '')), fn=I.tag + '_sample', na=I.na, nn=I.nn, core=False, pre=I.pre,
                         hints=I.d.hints, dpre=dpre, post=lambda c: constructed(c) + posts(c, I.p(c))))

    def onedraw(I):
        def posts(c, p):
            if len(c.draws) != 1:
                return [OPEN('the law of the value is that of the distribution (made from %d draws)' % len(c.draws))]
            k, kind, x, dp = c.draws[0]
            if kind == TRI and I.d.name == 'triangular' and c.o(0) is x:
                lo, hi, mode = lift(dp)
                return [EQ('lower end', lo, ta(p)), EQ('upper end', hi, tb(p)), EQ('mode', mode, tc(p))]
            if kind not in LAW:
                return [OPEN('the law of the value is that of the distribution (drawn another way)')]
            fam, _, H = LAW[kind]
            dp = lift(dp)
            if I.d.name == 'uniform':
                F = (c.o(0) - p[0]) / p[1]
                return [EQ('F(sample) is uniform', F, orient(c, I, F, H(dp, x)))]
            cdf = I.spec('cdf')
            if isinstance(cdf, list):
                r = []
                for cond, v in cdf:
                    F = v(p, c.o(0))
                    for h in (H(dp, x), ):
                        r.append((ands(cond(p, c.o(0))), F, h))
                # the same orientation for every piece
                flip = any([F.op != "rat" and orient(c, I, F, h) is not h for _, F, h in r])
                return [HOLDS('F(sample) is uniform, piece %d' % i, imp(g, eqf(F, 1 - h if flip else h))) for i, (g, F, h) in enumerate(r)]
            F = cdf(p, c.o(0))
            if c.o(0) is x and fam == I.d.name and fam in ('lognormal', 'normal'):
                # parameters of the draw are location and scale
                return [EQ('location', dp[0], p[0]), EQ('scale', dp[1], sq(p[1]))]
            return [EQ('F(sample) is uniform', F, orient(c, I, F, H(dp, x)))]
        return posts

    few = None
    for I in insts(few=few, sym=True):
        nm = I.d.name
        if nm in ('beta', 'cauchy', 'chi_sq', 'exponential', 'f_dist', 'frechet', 'gamma', 'kumaraswamy', 'laplace', 'lognormal', 'normal', 'pareto',
                  'student_t', 'triangular', 'uniform', 'weibull'):
            cont(I, onedraw(I))
        elif nm == 'folded_normal':
            def posts(c, p):
                if len(c.draws) != 1 or c.draws[0][1] != 10:
                    return [OPEN('the law of the value is that of the distribution (drawn another way)')]
                _, _, x, dp = c.draws[0]
                dp = lift(dp)
                z = (x - dp[0]) / dp[1]
                return [EQ('the absolute value of a normal variable', c.o(0), absf(p[0] + p[1] * z))]
            cont(I, posts)
        elif nm == 'inverse_normal':
            def posts(c, p):
                if [d[1] for d in c.draws][:1] != [10] or len(c.draws) != 2 or c.draws[1][1] not in (0, 1, 5, 6):
                    return [OPEN('the law of the value is that of the distribution (drawn another way)')]
                z = (c.draws[0][2] - lift(c.draws[0][3])[0]) / lift(c.draws[0][3])[1]
                u = LAW[c.draws[1][1]][2](lift(c.draws[1][3]), c.draws[1][2])
                m, l = p
                y = z * z
                # both roots of l (x - m)^2 = m^2 x y, the smaller one chosen with probability m / (m + x)
                x1 = m + m * m * y / (2 * l) - m / (2 * l) * sq(4 * m * l * y + m * m * y * y)
                o = c.o(0)
                t = m / (m + x1)
                small = lambda w: [imp(lt(w, t), le(o, m)), imp(gt(w, t), ge(o, m))]
                up, down = small(u), small(1 - u)
                return [EQ('a root of the transformation', l * (o - m) ** 2, m * m * o * y),
                        HOLDS('the smaller root is chosen with probability mu / (mu + x)', either(c, ands(up), ands(down), bnot(lt(u, t)))),
                        HOLDS('the larger root otherwise', either(c, ands(up), ands(down)))]
            cont(I, posts, dpre=lambda dr: interior(dr))
        elif nm == 'degenerate':
            cont(I, lambda c, p: [EQ('the value', c.o(0), p[0])])
    # discrete ones
    def disc(I, posts, conv='d.sample(&mut Rg) as i64'):
        out.append(RCase('%s_sample' % I.tag, I.body('OI(o,0,%s);' % conv), na=I.na, nn=I.nn, core=False, pre=I.pre, hints=I.d.hints, dpre=interior,
                         post=lambda c: constructed(c) + posts(c, I.p(c))))

    def bern(c, p):
        k, kind, x, dp = c.draws[0] if len(c.draws) == 1 else (None,) * 4
        if kind == 2:
            return [HOLDS('the value is the outcome of the trial', iff(same(c.oi(0), bv(1, 64)), bnot(same(x, bv(0, 64))))), EQ('probability of success', lift(dp)[0], p[0])]
        if kind in (0, 1, 5, 6):
            u, hit = LAW[kind][2](lift(dp), x), same(c.oi(0), bv(1, 64))
            return [HOLDS('true on an interval as long as p', either(c, iff(hit, lt(u, p[0])), iff(hit, gt(u, 1 - p[0])), bor(eqf(u, p[0]), eqf(u, 1 - p[0]))))]
        return [OPEN('true with probability p (drawn another way)')]

    def kinded(kind, names, want):
        def posts(c, p):
            if len(c.draws) != 1 or c.draws[0][1] != kind:
                return [OPEN('the law of the value is that of the distribution (drawn another way)')]
            k, _, x, dp = c.draws[0]
            val = c.oi(0)
            if kind == 3 and names == ['lo', 'hi']:
                lo, hi = want(p)
                sub = lambda a, b: tm.ibin('sub', a, b)
                return [HOLDS('the value is the draw, shifted with its range', same(sub(val, x), sub(lo, dp[2]))), HOLDS('length of the range', same(sub(dp[3], dp[2]), sub(hi, lo)))]
            r = [HOLDS('the value is the draw', same(val, x))]
            for i, (n_, w) in enumerate(zip(names, want(p))):
                got = dp[{'p': 0, 'lo': 2, 'hi': 3}[n_]]
                r.append(EQ(n_, lift([got])[0], w) if n_ == 'p' else HOLDS(n_, same(got, w)))
            return r
        return posts

    for I in insts(sym=True):
        nm = I.d.name
        if I.d.edge:
            one_ = 1 if nm.endswith('_p1') else 0
            if I.d.edge == 'bernoulli':
                disc(I, lambda c, p, v=one_: bern(c, [R(v)]))
            elif I.d.edge == 'binomial':
                disc(I, kinded(23, ['p', 'hi'], lambda p, v=one_, none=nm == 'binomial_none': [p[0], bv(0, 64)] if none else [R(v), whole(p[0])]))
            elif I.d.edge == 'geometric':
                disc(I, kinded(24, ['p'], lambda p: [R(1)]))
        elif nm == 'bernoulli':
            disc(I, bern)
        elif nm == 'binomial':
            disc(I, kinded(23, ['p', 'hi'], lambda p: [p[1], whole(p[0])]))
        elif nm == 'geometric':
            disc(I, kinded(24, ['p'], lambda p: [p[0]]))
        elif nm == 'uniform_int':
            disc(I, kinded(3, ['lo', 'hi'], lambda p: [whole(p[0]), tm.ibin('add', whole(p[0]), whole(p[1]))]))
        elif nm == 'degenerate_int':
            disc(I, lambda c, p: [HOLDS('the value', same(c.oi(0), whole(p[0])))])
        elif nm == 'poisson':
            def pois(c, p):
                if len(c.draws) != 1 or c.draws[0][1] != 22:
                    return [OPEN('the law of the value is that of the distribution (drawn another way)')]
                return [EQ('rate', lift(c.draws[0][3])[0], p[0]), HOLDS('the value is the draw', same(c.oi(0), c.draws[0][2]))]
            disc(I, pois)
    # a category is the interval of cumulative weights the uniform number falls in
    for n in range(1, 10) if tier == 'quick' else range(1, 15):
        def cat(c, n=n):
            if len(c.draws) != 1 or c.draws[0][1] not in (0, 1, 5, 6):
                return [OPEN('the law of the value is that of the distribution (drawn another way)')]
            u = LAW[c.draws[0][1]][2](lift(c.draws[0][3]), c.draws[0][2])
            cum = [R(0)]
            for i in range(n - 1):
                cum.append(cum[-1] + c.a[i])
            r = []
            for i in range(n):
                g = ands([ge(u, cum[i])] + ([lt(u, cum[i + 1])] if i + 1 < n else []))
                r.append(HOLDS('category %d exactly on an interval as long as its weight' % i, imp(g, same(c.ret, bv(i, 64)))))
            return r
        out.append(RCase('categorical_%d_sample' % n, 'let mut w = [0.0; %d]; let mut s = 0.0; for i in 0..%d { w[i] = A(a, i); s += w[i]; } w[%d] = 1.0 - s; '
                         'let d = crate::univariate::categorical::Categorical::<%d>::new_unchecked(w); d.sample(&mut Rg) as i64' % (n, n - 1, n - 1, n), na=max(1, n - 1), no=1, core=False,
                         pre=lambda c, n=n: [gt(c.a[i], Z) for i in range(n - 1)] + [lt(fsum([R(0)] + [c.a[i] for i in range(n - 1)]), ONE)], dpre=interior, post=cat))
    # several samples are independent single samples, in order
    for n in (0, 1, 3):
        for how, code in (('n', 'let v = d.sample_n(&mut Rg, %d);' % n), ('iter', 'let mut g = Rg; let v: Vec<f64> = d.sample_iter(&mut g).take(%d).collect();' % n)):
            def post(c, n=n):
                r = constructed(c) + [HOLDS('%d values' % n, same(c.oi(0), bv(n, 64))), HOLDS('one draw each', TRUE if len(c.draws) >= n else FALSE)]
                if len(c.draws) != n:
                    return r + ([OPEN('the values have the law of the distribution (drawn another way)')] if len(c.draws) > n else [])
                for i in range(n):
                    e = onefrom(c, 'normal', None, [c.a[0], c.a[1]], c.o(1 + i), c.draws[i])
                    r.append(EQ('value %d' % i, *e) if e else OPEN('value %d has the law of the distribution (drawn another way)' % i))
                return r
            out.append(RCase('sample_%s_%d' % (how, n), 'match crate::normal::UvNormal::new(A(a,0), A(a,1)) { Ok(d) => { %s OI(o,0,v.len() as i64); for i in 0..v.len() { O(o,1+i,v[i]); } 1 } Err(_) => 0 }' % code,
                             na=2, no=1 + n, core=False, pre=lambda c: [gt(c.a[1], Z)], post=post))
    return out


BOUNDS = ['every real parameter, and every value of the underlying draws; integer parameters: every value from 1 to 10^9 and the listed ones; categorical up to 9 (14) categories; 0, 1 and 3 repeated samples']
ASSUME = ['the draws of rand and rand_distr have the laws they document and are independent', 'draws on the boundary of their range, an event of probability zero, are left out', 'exact real arithmetic']
