"""C16: mixtures."""
from dists import *
from laws import LAW, lift, onefrom

TITLE = 'A mixture is the weighted combination of its components'
HELPERS = HEAD + '''
use crate::univariate as uv;
use crate::normal::UvNormal;
use spaces::{Space, OrderedSpace};
use crate::univariate::{bernoulli::Bernoulli, exponential::Exponential, poisson::Poisson, uniform::Uniform, gamma::Gamma};
unsafe fn arr<const K: usize>(a: *const f64) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, i) } r }
// K - 1 weights given, the last one the rest
unsafe fn ws<const K: usize>(a: *const f64) -> [f64; K] { let mut r = [0.0; K]; let mut s = 0.0; for i in 0..K - 1 { r[i] = A(a, i); s += r[i]; } r[K - 1] = 1.0 - s; r }
pub struct Rg;
impl rand::RngCore for Rg {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, _: &mut [u8]) {}
}
'''
CORE = False
MODE = {d.name: d for d in DISTS}


class Comp:
    """a component family with its k real parameters"""

    def __init__(self, name, mk, k, valid, x='f'):
        self.name, self.mk, self.k, self.valid, self.x = name, mk, k, valid, x
        self.d = MODE[name]


NORM = Comp('normal', 'UvNormal::new_unchecked({0}, {1})', 2, lambda p: [gt(p[1], Z)])
EXPO = Comp('exponential', 'Exponential::new_unchecked({0})', 1, lambda p: [gt(p[0], Z)])
GAM = Comp('gamma', 'Gamma::new_unchecked({0}, {1})', 2, lambda p: [gt(p[0], Z), gt(p[1], Z)])
UNI = Comp('uniform', 'Uniform::<f64>::new_unchecked({0}, {1})', 2, lambda p: [gt(p[1], Z)])
BER = Comp('bernoulli', 'Bernoulli::new_unchecked({0})', 1, lambda p: [gt(p[0], Z), lt(p[0], ONE)])


def setup(C, n):
    comps = ', '.join(C.mk.format(*['A(a,%d)' % (n + C.k * i + j) for j in range(C.k)]) for i in range(n))
    W = lambda c: [c.a[i] for i in range(n - 1)] + [1 - fsum([R(0)] + [c.a[i] for i in range(n - 1)])]
    P_ = lambda c: [[c.a[n + C.k * i + j] for j in range(C.k)] for i in range(n)]

    def pre(c):
        return [ge(w, Z) for w in W(c)] + [v for p in P_(c) for v in C.valid(p)]
    mk = 'let m = Mixture::new_unchecked(ws::<%d>(a), [%s]);' % (n, comps)
    return comps, W, P_, pre, mk, n + C.k * n


def mix(W, vs): return fsum([R(0)] + [w * v for w, v in zip(W, vs)])


def cases(tier):
    out = []
    ns = (1, 2, 3, 4, 5) if tier == 'quick' else range(1, 8)
    # construction
    for n in ns:
        def ok(c, n=n):
            s = Z
            for i in range(n):
                s = tm.fbin('fadd', s, c.a[i])
            return ands([band(ge(c.a[i], Z), le(c.a[i], ONE)) for i in range(n)] + [lt(tm.fun('fabs', tm.fbin('fsub', s, ONE)), f64(1e-5))])
        comps = ', '.join('UvNormal::new_unchecked(A(a,%d), A(a,%d))' % (n + 2 * i, n + 2 * i + 1) for i in range(n))
        out.append(Case('new_%d' % n, 'match Mixture::new(arr::<%d>(a), [%s]) { Ok(m) => { for i in 0..%d { O(o,i,m.weights[i]); O(o,%d+2*i,m.components[i].mean()); O(o,%d+2*i+1,m.components[i].variance()); } 1 } Err(_) => { for i in 0..%d { O(o,i,A(a,i)); } 0 } }'
                        % (n, comps, n, n, n, 3 * n), na=3 * n, no=3 * n,
                        post=lambda c, ok=ok, n=n: [('accepts exactly the probability vectors (to 1e-5)', iff(retis(c, 1), ok(c)))] +
                        [('keeps input %d' % i, fsame(c, i, c.a[i])) for i in range(3 * n)]))
    for C, ns_ in ((NORM, ns), (EXPO, ns), (GAM, ns[1:2]), (UNI, ns[:2])):
        f = C.d.f
        for n in ns_:
            comps, W, P_, pre, mk, na = setup(C, n)
            nm = '%s_%d' % (C.name, n)

            def x_pre(c, P_=P_, pre=pre, na=na, C=C):
                return pre(c) + [v for p in P_(c) for v in C.d.sup(p, c.a[na])]
            if C is UNI:
                # the value inside the overlap, or below or above everything
                regs = [('_in', lambda p, x: [gt(x, p[0]), lt(x, p[0] + p[1])], lambda p, x: (x - p[0]) / p[1], lambda p, x: 1 / p[1]),
                        ('_below', lambda p, x: [lt(x, p[0])], lambda p, x: R(0), lambda p, x: R(0)),
                        ('_above', lambda p, x: [gt(x, p[0] + p[1])], lambda p, x: R(1), lambda p, x: R(0))]
            else:
                regs = [('', C.d.sup, f['cdf'], f['pdf'])]
            for suf, cond, F, g in regs:
                xp = lambda c, cond=cond, P_=P_, pre=pre, na=na: pre(c) + [v for p in P_(c) for v in cond(p, c.a[na])]
                out.append(RCase(nm + '_cdf' + suf, mk + ' O(o,0,m.cdf(&A(a,%d)).0); O(o,1,m.ccdf(&A(a,%d)).0); 1' % (na, na), na=na + 1, no=2, core=False, pre=xp,
                                 post=lambda c, F=F, W=W, P_=P_, na=na: [EQ('cdf', c.o(0), mix(W(c), [F(p, c.a[na]) for p in P_(c)])),
                                                                       EQ('ccdf', c.o(1), 1 - mix(W(c), [F(p, c.a[na]) for p in P_(c)]))]))
                out.append(RCase(nm + '_pdf' + suf, mk + ' O(o,0,m.pdf(&A(a,%d))); 1' % na, na=na + 1, no=1, core=False, pre=xp,
                                 post=lambda c, g=g, W=W, P_=P_, na=na: [EQ('density', c.o(0), mix(W(c), [g(p, c.a[na]) for p in P_(c)]))]))
            mean = lambda c, W=W, P_=P_, f=f: mix(W(c), [f['mean'](p) for p in P_(c)])
            var = lambda c, W=W, P_=P_, f=f, mean=mean: mix(W(c), [f['variance'](p) + f['mean'](p) ** 2 for p in P_(c)]) - mean(c) ** 2
            out.append(RCase(nm + '_mean', mk + ' O(o,0,m.mean()); 1', na=na, core=False, pre=pre, post=lambda c, mean=mean: [EQ('mean', c.o(0), mean(c))]))
            out.append(RCase(nm + '_variance', mk + ' O(o,0,m.variance()); 1', na=na, core=False, pre=pre, post=lambda c, var=var: [EQ('variance', c.o(0), var(c))]))
            if n <= (3 if C is NORM else 2):
              out.append(RCase(nm + '_sd', mk + ' O(o,0,m.standard_deviation()); 1', na=na, core=False, pre=lambda c, pre=pre, var=var: pre(c) + [gt(var(c), Z)],
                             post=lambda c, var=var: [GE('sd is not negative', c.o(0), R(0)), EQ('sd squared', c.o(0) * c.o(0), var(c))]))
            # parameters
            if C in (NORM, EXPO):
                rd = {'normal': ['p.component_params[i].mu.0', 'p.component_params[i].Sigma.0'], 'exponential': ['p.component_params[i].lambda.0']}[C.name]
                wr = ' '.join('O(o,%d+%d*i+%d,%s);' % (n, C.k, j, e) for j, e in enumerate(rd))
                for suf, e in (('', 'm.params()'), ('_back', 'Mixture::from(m.params()).params()')):
                    e = e.replace('Mixture::from', 'Mixture::<%d, %s>::from' % (n, {'normal': 'UvNormal', 'exponential': 'Exponential'}[C.name]))
                    out.append(RCase(nm + '_params' + suf, mk + ' let p = %s; for i in 0..%d { O(o,i,p.ps[i]); %s } p.component_params.len() as i64' % (e, n, wr), na=na, no=na, core=False, pre=pre,
                                     post=lambda c, n=n, na=na, W=W: [HOLDS('component count', same(c.ret, bv(n, 64)))] + [EQ('parameter %d' % i, c.o(i), c.a[i] if i != n - 1 else W(c)[i]) for i in range(na)]))

            # sampling: one uniform number picks the component, then that component is sampled
            if C in (NORM, EXPO):
                def post(c, n=n, W=W, P_=P_, C=C):
                    if len(c.draws) < 2:
                        return [HOLDS('draws the index and then the component', FALSE)]
                    kind0, u = c.draws[0][1:3]
                    if len(c.draws) > 2 or kind0 not in (0, 1, 5, 6):
                        return [OPEN('the value has the law of the component drawn (drawn another way)')]
                    u = LAW[kind0][2](lift(c.draws[0][3]), u)
                    cum, r = [R(0)], []
                    for w in W(c):
                        cum.append(cum[-1] + w)
                    for i in range(n):
                        g = ands([ge(u, cum[i]), lt(u, cum[i + 1])]) if i + 1 < n else ge(u, cum[i])
                        e = onefrom(c, C.name, None if C is NORM else C.d.f['cdf'], P_(c)[i], c.o(0), c.draws[1])
                        r.append(HOLDS('component %d is drawn with its own parameters' % i, imp(g, eqf(*e))) if e else OPEN('the value has the law of the component drawn (drawn another way)'))
                    return r
                out.append(RCase(nm + '_sample', mk + ' O(o,0,m.sample(&mut Rg)); 1', na=na, core=False, pre=pre, post=post))
    # support: the smallest interval containing every component's support
    for n in (1, 2, 3, 4, 5):
        comps, W, P_, pre, mk, na = setup(UNI, n)
        def post(c, n=n, P_=P_):
            lo, hi = [p[0] for p in P_(c)], [p[0] + p[1] for p in P_(c)]
            return [HOLDS('lower end below all', ands([le(c.o(0), x) for x in lo])), HOLDS('lower end attained', ors([eqf(c.o(0), x) for x in lo])),
                    HOLDS('upper end above all', ands([ge(c.o(1), x) for x in hi])), HOLDS('upper end attained', ors([eqf(c.o(1), x) for x in hi]))]
        for ck, e in (('', mk), ('_checked', 'let m = match Mixture::new(ws::<%d>(a), [%s]) { Ok(m) => m, Err(_) => return 0 };' % (n, comps))):
            out.append(RCase('support%s_%d' % (ck, n), e + ' let s = m.support(); O(o,0,OrderedSpace::inf(&s).unwrap()); O(o,1,OrderedSpace::sup(&s).unwrap()); 1', na=na, no=2, core=False,
                             pre=pre, post=post))
    # discrete components
    for n in ns[:2]:
        comps, W, P_, pre, mk, na = setup(BER, n)
        for k in (0, 1):
            out.append(RCase('bernoulli_%d_cdf_at%d' % (n, k), mk + ' O(o,0,m.cdf(&%s).0); 1' % ('true' if k else 'false'), na=na, core=False, pre=pre,
                             post=lambda c, k=k, W=W, P_=P_: [EQ('cdf', c.o(0), R(1) if k else mix(W(c), [1 - p[0] for p in P_(c)]))]))
    # a mixture of mixtures
    out.append(RCase('nested', 'let u = Mixture::new_unchecked([A(a,0), 1.0 - A(a,0)], [UvNormal::new_unchecked(A(a,4), A(a,5)), UvNormal::new_unchecked(A(a,6), A(a,7))]);'
                     'let v = Mixture::new_unchecked([A(a,8), 1.0 - A(a,8)], [UvNormal::new_unchecked(A(a,10), A(a,11)), UvNormal::new_unchecked(A(a,12), A(a,13))]);'
                     'let m = Mixture::new_unchecked([A(a,2), 1.0 - A(a,2)], [u, v]); O(o,0,m.pdf(&A(a,14))); O(o,1,m.cdf(&A(a,14)).0); O(o,2,m.mean()); 1', na=15, no=3, core=False,
                     pre=lambda c: [gt(c.a[i], Z) for i in (0, 2, 5, 7, 8, 11, 13)] + [lt(c.a[i], ONE) for i in (0, 2, 8)],
                     post=lambda c: [EQ(l, c.o(i), fsum(w * g([c.a[j], c.a[j + 1]]) for w, j in nested(c))) for i, (l, g) in enumerate((
                         ('density', lambda p: MODE['normal'].f['pdf'](p, c.a[14])), ('cdf', lambda p: MODE['normal'].f['cdf'](p, c.a[14])), ('mean', lambda p: p[0])))]))
    # a parameter record with too few components is refused, not read past its end
    for k in range(0, 3):
        out.append(RCase('from_%d_of_3' % k, 'let d = [%s]; let mut v = vec![]; for i in 0..%d { v.push(UvNormal::new_unchecked(A(a,3+2*i), A(a,4+2*i)).params()); } let mut p = Mixture::new_unchecked(ws::<3>(a), d).params(); p.component_params = v;'
                         ' let m = Mixture::<3, UvNormal>::from(p); O(o,0,m.components[2].mean()); 1' % (setup(NORM, 3)[0], k), na=9, core=False,
                         pre=setup(NORM, 3)[3], panics=lambda c: TRUE, post=lambda c: [HOLDS('refuses a record with missing components', FALSE)]))
    return out


def nested(c):
    u, v, w = c.a[0], c.a[8], c.a[2]
    return [(w * u, 4), (w * (1 - u), 6), ((1 - w) * v, 10), ((1 - w) * (1 - v), 12)]


BOUNDS = 'mixtures of 1 to 5 normal or exponential, 2 gamma, 1 or 2 uniform components (7 thorough; standard deviation to 3 normal or 2 other components, supports to 5), every weight vector and every valid component parameter'
ASSUME = ['exact real arithmetic except for construction, which is decided on doubles']
