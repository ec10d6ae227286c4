"""C14: likelihoods, scores, Fisher information, maximum-likelihood fits."""
import itertools
from dists import *

TITLE = 'Likelihoods, scores, Fisher information and fits agree with the density'
HELPERS = HEAD + '''
use crate::univariate as uv;
use crate::normal::{UvNormal, PairedNormal};
unsafe fn xs(a: *const f64, k: usize, n: usize) -> Vec<f64> { (0..n).map(|i| A(a, k + i)).collect() }
unsafe fn xs2(a: *const f64, k: usize, n: usize) -> Vec<[f64; 2]> { (0..n).map(|i| [A(a, k + 2 * i), A(a, k + 2 * i + 1)]).collect() }
'''
CORE = False
JIT = f64(1e-9)
BY = {d.name: d for d in DISTS}


def lsum(xs): return fsum([R(0)] + list(xs))


def cont(name, ctor, k, pre, logf, score, fields, ns, width=1, hints=None, lik=True):
    """one continuous family: k parameters first, then n samples of `width` numbers"""
    out = []
    for n in ns:
        def X(c, n=n):
            v = [c.a[k + i] for i in range(n * width)]
            return v if width == 1 else [v[i * width:(i + 1) * width] for i in range(n)]
        P_ = lambda c: [c.a[i] for i in range(k)]
        smp = 'xs%s(a, %d, %d)' % ('' if width == 1 else '2', k, n)
        full = lambda c, X=X: pre(P_(c), X(c))
        na = k + n * width
        if lik:
            out.append(RCase('%s_loglik_%d' % (name, n), 'let d = %s; let s = %s; O(o,0,d.log_likelihood(&s)); 1' % (ctor, smp), na=na, core=False, pre=full, hints=hints,
                             post=lambda c, X=X: [EQ('log-likelihood', c.o(0), lsum(logf(P_(c), x) for x in X(c)))]))
            out.append(RCase('%s_lik_%d' % (name, n), 'let d = %s; let s = %s; O(o,0,d.likelihood(&s)); 1' % (ctor, smp), na=na, core=False, pre=full, hints=hints,
                             post=lambda c, X=X: [EQ('likelihood', c.o(0), exp(lsum(logf(P_(c), x) for x in X(c))))]))
        if score:
            body = 'let d = %s; let s = %s; let g = d.score(&s); %s 1' % (ctor, smp, ' '.join('O(o,%d,g.%s);' % (i, f) for i, f in enumerate(fields)))
            out.append(RCase('%s_score_%d' % (name, n), body, na=na, no=len(fields), core=False, pre=full, hints=hints,
                             post=lambda c, X=X: [EQ('score in %s' % f, c.o(i), e) for i, (f, e) in enumerate(zip(fields, score(P_(c), X(c))))]))
    return out


def cases(tier):
    out = []
    ns = range(0, 7) if tier == 'quick' else range(0, 9)

    # Beta: samples inside [1e-9, 1 - 1e-9], where the guard against ln 0 is inactive
    out += cont('beta', 'uv::beta::Beta::new_unchecked(A(a,0), A(a,1))', 2,
                lambda p, xs: [gt(p[0], Z), gt(p[1], Z)] + [gt(x, JIT) for x in xs] + [gt(1 - x, JIT) for x in xs],
                lambda p, x: (p[0] - 1) * ln(x) + (p[1] - 1) * ln(1 - x) - LB(p[0], p[1]),
                lambda p, xs: [lsum(ln(x) - DG(p[0]) + DG(p[0] + p[1]) for x in xs), lsum(ln(1 - x) - DG(p[1]) + DG(p[0] + p[1]) for x in xs)],
                ['alpha', 'beta'], ns)
    out += cont('gamma', 'uv::gamma::Gamma::new_unchecked(A(a,0), A(a,1))', 2,
                lambda p, xs: [gt(p[0], Z), gt(p[1], Z)] + [gt(x, JIT) for x in xs],
                lambda p, x: (p[0] - 1) * ln(x) - p[1] * x + p[0] * ln(p[1]) - LG(p[0]),
                lambda p, xs: [lsum(ln(x) + ln(p[1]) - DG(p[0]) for x in xs), lsum(p[0] / p[1] - x for x in xs)],
                ['alpha', 'beta'], ns)
    nlog = lambda m, s, x: -(ln(2 * PI * s) / 2) - (x - m) ** 2 / (2 * s)
    out += cont('normal', 'UvNormal::new_unchecked(A(a,0), A(a,1))', 2, lambda p, xs: [gt(p[1], Z)],
                lambda p, x: nlog(p[0], p[1], x),
                lambda p, xs: [lsum((x - p[0]) / p[1] for x in xs), lsum((x - p[0]) ** 2 / (2 * p[1] ** 2) - 1 / (2 * p[1]) for x in xs)],
                ['mu', 'Sigma'], ns)
    out += cont('paired_normal', 'PairedNormal::new_unchecked([A(a,0), A(a,1)], [A(a,2), A(a,3)])', 4, lambda p, xs: [gt(p[2], Z), gt(p[3], Z)],
                lambda p, x: nlog(p[0], p[2], x[0]) + nlog(p[1], p[3], x[1]),
                lambda p, xs: [lsum((x[i] - p[i]) / p[2 + i] for x in xs) for i in (0, 1)] +
                              [lsum((x[i] - p[i]) ** 2 / (2 * p[2 + i] ** 2) - 1 / (2 * p[2 + i]) for x in xs) for i in (0, 1)],
                ['mu[0]', 'mu[1]', 'Sigma[0]', 'Sigma[1]'], [n for n in ns if n < 4], width=2)

    # Bernoulli: every sequence of outcomes
    pp = lambda c: [gt(c.a[0], Z), lt(c.a[0], ONE)]
    for n in range(0, 7 if tier == 'quick' else 9):
        for bits_ in itertools.product((0, 1), repeat=n):
            tag = ''.join(map(str, bits_)) or 'none'
            smp = 'let s: Vec<bool> = vec![%s];' % ', '.join('true' if b else 'false' for b in bits_)
            k = sum(bits_)
            ll = lambda c, k=k, n=n: k * ln(c.a[0]) + (n - k) * ln(1 - c.a[0])
            mk = 'let d = uv::bernoulli::Bernoulli::new_unchecked(A(a,0));'
            out.append(RCase('bernoulli_loglik_%s' % tag, '%s %s O(o,0,d.log_likelihood(&s)); 1' % (mk, smp), na=1, core=False, pre=pp,
                             post=lambda c, ll=ll: [EQ('log-likelihood', c.o(0), ll(c))]))
            out.append(RCase('bernoulli_lik_%s' % tag, '%s %s O(o,0,d.likelihood(&s)); 1' % (mk, smp), na=1, core=False, pre=pp,
                             post=lambda c, k=k, n=n: [EQ('likelihood', c.o(0), c.a[0] ** k * (1 - c.a[0]) ** (n - k))]))
            out.append(RCase('bernoulli_score_%s' % tag, '%s %s O(o,0,d.score(&s).p); 1' % (mk, smp), na=1, core=False, pre=pp,
                             post=lambda c, k=k, n=n: [EQ('score in p', c.o(0), R(k) / c.a[0] - R(n - k) / (1 - c.a[0]))]))
            out.append(RCase('bernoulli_mle_%s' % tag, '%s match uv::bernoulli::Bernoulli::fit_mle(&s) { Ok(d) => { O(o,0,d.params().p.0); 1 } Err(_) => 0 }' % smp, core=False,
                             post=lambda c, k=k, n=n: [HOLDS('a fit exactly when there are samples', same(c.ret, bv(int(n > 0), 64)))] +
                             ([EQ('fitted p', c.o(0), R(k, n))] if n else [])))
    # Poisson
    lam = lambda c: [gt(c.a[0], Z)]
    for ks in [(), (0,), (1,), (3,), (0, 2), (5, 1), (2, 2, 7), (20, 0, 4)] + [(30,), (100,), (254,), (0, 0, 0, 1), (1, 2, 3, 4, 5)]:
        n, S = len(ks), sum(ks)
        tag = '_'.join(map(str, ks)) or 'none'
        smp = 'let s: Vec<u64> = vec![%s];' % ', '.join(map(str, ks))
        mk = 'let d = uv::poisson::Poisson::new_unchecked(A(a,0));'
        lf = math.prod(math.factorial(k) for k in ks)
        out.append(RCase('poisson_loglik_%s' % tag, '%s %s O(o,0,d.log_likelihood(&s)); 1' % (mk, smp), na=1, core=False, pre=lam,
                         post=lambda c, S=S, n=n, ks=ks: [EQ('log-likelihood', c.o(0), S * ln(c.a[0]) - n * c.a[0] - lsum(ln(R(j)) for k in ks for j in range(2, k + 1)))]))
        out.append(RCase('poisson_score_%s' % tag, '%s %s O(o,0,d.score(&s).lambda); 1' % (mk, smp), na=1, core=False, pre=lam,
                         post=lambda c, S=S, n=n: [EQ('score in lambda', c.o(0), R(S) / c.a[0] - n)]))
        out.append(RCase('poisson_mle_%s' % tag, '%s match uv::poisson::Poisson::fit_mle(&s) { Ok(d) => { O(o,0,d.params().lambda.0); 1 } Err(_) => 0 }' % smp, core=False,
                         post=lambda c, S=S, n=n: [HOLDS('a fit exactly when the mean count is positive', same(c.ret, bv(int(S > 0), 64)))] +
                         ([EQ('fitted lambda', c.o(0), R(S, n))] if S else [])))
    # Normal fit
    for n in range(0, 7 if tier == 'quick' else 9):
        def post(c, n=n):
            xs = [c.a[i] for i in range(n)]
            if n == 0:
                return [HOLDS('no fit without samples', same(c.ret, bv(0, 64)))]
            m = fsum(xs) / n
            v = fsum((x - m) ** 2 for x in xs) / n
            r = [HOLDS('a fit exactly when the sample variance is positive', iff(same(c.ret, bv(1, 64)), gt(v, Z)))]
            if c.ret.op == 'c' and c.ret.args[0] == 1:
                r += [EQ('fitted mean', c.o(0), m), EQ('fitted variance', c.o(1), v)]
            return r
        out.append(RCase('normal_mle_%d' % n, 'let s = xs(a, 0, %d); match UvNormal::fit_mle(&s) { Ok(d) => { let p = d.params(); O(o,0,p.mu.0); O(o,1,p.Sigma.0); 1 } Err(_) => 0 }' % n,
                         na=n, no=2, core=False, post=post))
    # Fisher information
    for I in insts(few=None):
        f = I.d.f.get('fisher')
        if f is None:
            continue
        K = len(f(I.p(dummy(I))))
        out.append(RCase(I.tag + '_fisher', I.body('let m = d.fisher_information(); for i in 0..%d { for j in 0..%d { O(o, i * %d + j, m[i][j]); } }' % (K, K, K)), na=I.na, no=K * K, core=False,
                         pre=I.pre, hints=I.d.hints,
                         post=lambda c, I=I, f=f, K=K: constructed(c) + [EQ('information [%d][%d]' % (i, j), c.o(i * K + j), f(I.p(c))[i][j]) for i in range(K) for j in range(K)]))
    return out


BOUNDS = ['every real parameter and sample vector of length 0..6 (0..8 in the thorough tier); Bernoulli: every outcome sequence of that length; Poisson: the listed count vectors']
ASSUME = ['exact real arithmetic; special functions compute the functions they name',
          'Beta and Gamma samples are at least 1e-9 away from the ends of the support, where the guard against ln 0 is inactive']
