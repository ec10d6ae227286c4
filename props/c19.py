"""C19: Dirichlet, multinomial and multivariate log-normal; random simplex points."""
import math
from dists import *
from laws import gaussian, agree, way
from c17 import HELPERS as H17, tri, diag, gram, forward

TITLE = 'Dirichlet, multinomial and multivariate log-normal laws match their definition'
HELPERS = H17 + '''
use crate::multivariate::{dirichlet::Dirichlet, multinomial::Multinomial, lognormal::LogNormal as MvLogNormal};
use crate::SimplexVector;
// the last weight is what the others leave
unsafe fn simplex<const K: usize>(a: *const f64, b: usize) -> [f64; K] { let mut r = [0.0; K]; let mut s = 0.0; for i in 0..(K - 1) { r[i] = A(a, b + i); s += r[i]; } r[K - 1] = 1.0 - s; r }
'''
CORE = False


G = LG


def lift(ps): return [tm.lift(p) for p in ps]


def weights(c, n, b): return [c.a[b + i] for i in range(n - 1)] + [ONE_ - fsum([R(0)] + [c.a[b + i] for i in range(n - 1)])]


ONE_ = R(1)


def onsimplex(c, n, b): return [gt(c.a[b + i], Z) for i in range(n - 1)] + ([lt(fsum([R(0)] + [c.a[b + i] for i in range(n - 1)]), ONE)] if n > 1 else [])


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def dirichlet(out, tier):
    for n in range(1, 9 if tier == 'quick' else 12):
        al = lambda c, n=n: [c.a[i] for i in range(n)]
        pos = lambda c, n=n: [gt(x, Z) for x in (c.a[i] for i in range(n))]
        a0 = lambda c, n=n: fsum(c.a[i] for i in range(n))
        logc = lambda c, a0=a0, al=al: G(a0(c)) - fsum(G(x) for x in al(c))
        for how, mk in (('', 'Dirichlet::<%d>::new(arr::<%d>(a,0))' % (n, n)), ('_params', 'Dirichlet::<%d>::new(arr::<%d>(a,0)).map(|q| Dirichlet::<%d>::from(q.params()))' % (n, n, n))):
            base = 'match %s { Ok(m) => { %%s 1 } Err(_) => 0 }' % mk
            hints = {'a%d' % i: (0.3, 4) for i in range(n)}
            hints.update({'a%d' % (n + i): (0.02, 0.9 / n) for i in range(n)})

            def rc(nm, code, post, extra=None, na=0, no=1, n=n, base=base, how=how, hints=hints, **kw):
                out.append(RCase('dirichlet_%d%s_%s' % (n, how, nm), base % code, na=n + max(na, 1), no=no, core=False, hints=hints, pre=lambda c: pos_(c, n) + (extra(c) if extra else []),
                                 post=lambda c: constructed(c) + (post(c) if c.ret.op == 'c' and c.ret.args[0] == 1 else []), **kw))
            pos_ = lambda c, n: [gt(c.a[i], Z) for i in range(n)]
            X = 'let x = simplex::<%d>(a,%d);' % (n, n)
            xs = lambda c, n=n: weights(c, n, n)
            on = lambda c, n=n: onsimplex(c, n, n)
            lp = lambda c, logc=logc, al=al, xs=xs: logc(c) + fsum((a - 1) * ln(x) for a, x in zip(al(c), xs(c)))
            rc('pdf', X + ' O(o,0,m.pdf(&x));', lambda c, lp=lp: [EQ('density', c.o(0), exp(lp(c)))], on, na=n - 1)
            if how:
                continue
            rc('log_pdf', X + ' O(o,0,m.log_pdf(&x));', lambda c, lp=lp: [EQ('log density', c.o(0), lp(c))], on, na=n - 1)
            rc('mean', 'put::<%d>(o,0,m.mean());' % n, lambda c, al=al, a0=a0, n=n: [EQ('mean %d' % i, c.o(i), al(c)[i] / a0(c)) for i in range(n)], no=n)
            cov = lambda c, i, j, al=al, a0=a0: ((al(c)[i] * a0(c) if i == j else R(0)) - al(c)[i] * al(c)[j]) / (a0(c) ** 2 * (a0(c) + 1))
            rc('variance', 'put::<%d>(o,0,m.variance());' % n, lambda c, cov=cov, n=n: [EQ('variance %d' % i, c.o(i), cov(c, i, i)) for i in range(n)], no=n)
            idx = [(i, j) for i in range(n) for j in range(n)]
            rc('covariance', 'put2::<%d>(o,0,m.covariance());' % n, lambda c, cov=cov, n=n, idx=idx: [EQ('covariance %d,%d' % ij, c.o(ij[0] * n + ij[1]), cov(c, *ij)) for ij in idx], no=n * n)
            rc('modes_any', 'let v = m.modes(); if v.len() != 1 { return 2; } put::<%d>(o,0,v[0]);' % n, lambda c, n=n: [HOLDS('mode coordinate %d is in [0, 1]' % i, band(ge(c.o(i), Z), le(c.o(i), ONE))) for i in range(n)], no=n, panics=lambda c: TRUE)
            if n > 1:
                rc('correlation', 'put2::<%d>(o,0,m.correlation());' % n, lambda c, al=al, a0=a0, n=n, idx=idx: [
                    EQ('correlation %d,%d' % ij, c.o(ij[0] * n + ij[1]), R(1) if ij[0] == ij[1] else -sq(al(c)[ij[0]]) * sq(al(c)[ij[1]]) / (sq(a0(c) - al(c)[ij[0]]) * sq(a0(c) - al(c)[ij[1]]))) for ij in idx], no=n * n)
                rc('modes', 'let v = m.modes(); if v.len() != 1 { return 2; } put::<%d>(o,0,v[0]);' % n, lambda c, al=al, a0=a0, n=n: [EQ('mode %d' % i, c.o(i), (al(c)[i] - 1) / (a0(c) - n)) for i in range(n)],
                   lambda c, n=n: [ge(c.a[i], ONE) for i in range(n)] + [gt(fsum(c.a[i] for i in range(n)), f64(float(n)))], no=n)

            def sample(c, al=al, n=n):
                if len(c.draws) != n or any(dr[1] != 12 for dr in c.draws):
                    return [OPEN('the law of the value is that of the distribution (drawn another way)')]
                g = [dr[2] / lift(dr[3])[1] for dr in c.draws]      # gamma with scale one
                return [EQ('shape of draw %d' % i, lift(c.draws[i][3])[0], al(c)[i]) for i in range(n)] + [EQ('coordinate %d' % i, c.o(i), g[i] / fsum(g)) for i in range(n)]
            out.append(RCase('dirichlet_%d_sample' % n, base % ('put::<%d>(o,0,m.sample(&mut Rg));' % n), na=n, no=n, core=False, pre=pos, dpre=lambda dr: [gt(d[2], Z) for d in dr], hints=hints,
                             post=lambda c, sample=sample: constructed(c) + sample(c)))


def multinomial(out, tier):
    for k in (1, 2, 3, 4):
        for n in (0, 1, 2, 3, 5) + ((7,) if tier == 'thorough' else ()):
            ps = lambda c, k=k: weights(c, k, 0)
            pre = lambda c, k=k: onsimplex(c, k, 0)
            hints = {'a%d' % i: (0.02, 0.9 / k) for i in range(k)}
            na = max(1, k - 1)
            base = 'match Multinomial::<%d>::new(%d, simplex::<%d>(a,0)) { Ok(m) => { %%s 1 } Err(_) => 0 }' % (k, n, k)

            def rc(nm, code, post, no=1, base=base, pre=pre, hints=hints, na=na, k=k, n=n):
                out.append(RCase('multinomial_%d_of_%d_%s' % (n, k, nm), base % code, na=na, no=no, core=False, hints=hints, pre=pre,
                                 post=lambda c: constructed(c) + (post(c) if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
            pts = list(compositions(n, k))
            if tier != 'thorough' and len(pts) > 4:
                pts = [pts[0], pts[len(pts) // 3], pts[len(pts) // 2], pts[-1]]
            for xs in pts:
                coef = math.factorial(n)
                for x in xs:
                    coef //= math.factorial(x)
                arr = '[%s]' % ', '.join('%dusize' % x for x in xs)
                tag = '_'.join(map(str, xs))
                want = lambda c, xs=xs, coef=coef, ps=ps: fprod([R(coef)] + [p ** x for p, x in zip(ps(c), xs) if x])
                rc('pmf_' + tag, 'O(o,0,m.pmf(&%s).unwrap());' % arr, lambda c, want=want: [EQ('probability', c.o(0), want(c))])
                if xs is pts[0] or xs is pts[-1] or tier == 'thorough':
                    rc('log_pmf_' + tag, 'O(o,0,m.log_pmf(&%s));' % arr, lambda c, want=want: [EQ('log probability', c.o(0), ln(want(c)))])
                    rc('params_pmf_' + tag, 'let m = Multinomial::<%d>::from(m.params()); O(o,0,m.pmf(&%s).unwrap());' % (k, arr), lambda c, want=want: [EQ('probability', c.o(0), want(c))])
            # totals other than the number of trials cannot happen
            for xs in {(n + 1,) + (0,) * (k - 1), (0,) * k, (1,) * k, (n,) * k}:
                if sum(xs) != n:
                    rc('pmf_impossible_' + '_'.join(map(str, xs)), 'O(o,0,m.pmf(&[%s]).unwrap());' % ', '.join('%dusize' % x for x in xs), lambda c: [EQ('probability', c.o(0), R(0))])
            rc('mean', 'put::<%d>(o,0,m.mean());' % k, lambda c, ps=ps, n=n, k=k: [EQ('mean %d' % i, c.o(i), n * ps(c)[i]) for i in range(k)], no=k)
            rc('variance', 'put::<%d>(o,0,m.variance());' % k, lambda c, ps=ps, n=n, k=k: [EQ('variance %d' % i, c.o(i), n * ps(c)[i] * (1 - ps(c)[i])) for i in range(k)], no=k)
            idx = [(i, j) for i in range(k) for j in range(k)]
            rc('covariance', 'put2::<%d>(o,0,m.covariance());' % k, lambda c, ps=ps, n=n, k=k, idx=idx: [
                EQ('covariance %d,%d' % ij, c.o(ij[0] * k + ij[1]), n * ps(c)[ij[0]] * ((1 if ij[0] == ij[1] else 0) - ps(c)[ij[1]])) for ij in idx], no=k * k)
            if k > 1 and n:
                rc('correlation', 'put2::<%d>(o,0,m.correlation());' % k, lambda c, ps=ps, k=k, idx=idx: [
                    EQ('correlation %d,%d' % ij, c.o(ij[0] * k + ij[1]), R(1) if ij[0] == ij[1] else -sq(ps(c)[ij[0]] * ps(c)[ij[1]] / ((1 - ps(c)[ij[0]]) * (1 - ps(c)[ij[1]])))) for ij in idx], no=k * k)


def counts(out, tier):
    """counts that are any integers"""
    for k in (1, 2, 3, 4):
        ps = lambda c, k=k: weights(c, k, 0)
        hints = {'a%d' % i: (0.02, 0.9 / k) for i in range(k)}
        X = lambda c, k=k: [tm.itof(False, c.n[i]) for i in range(k)]
        n_ = lambda c, X=X: fsum(X(c))
        pre = lambda c, k=k: onsimplex(c, k, 0) + [between(c.n[i], 0, BIG) for i in range(k)]
        logp = lambda c, X=X, ps=ps, n_=n_: LG(n_(c) + 1) + fsum(x * ln(p) - LG(x + 1) for x, p in zip(X(c), ps(c)))
        base = 'let x = [%s]; let m = Multinomial::<%d>::new_unchecked(%s, simplex::<%d>(a,0)); %%s 1' % (', '.join('N(n,%d) as usize' % i for i in range(k)), k, ' + '.join('x[%d]' % i for i in range(k)), k)

        def rc(nm, code, post, no=1, panics=None, k=k, base=base, pre=pre, hints=hints, nn=k):
            out.append(RCase('multinomial_any_%d_%s' % (k, nm), base % code, na=max(1, k - 1), nn=nn, no=no, core=False, hints=hints, pre=pre, panics=panics, post=post))
        rc('log_pmf', 'O(o,0,m.log_pmf(&x));', lambda c, logp=logp: [EQ('log probability', c.o(0), logp(c))])
        # a rounding error above one ends in a panic, which exact arithmetic cannot exclude here
        rc('pmf', 'O(o,0,m.pmf(&x).unwrap());', lambda c, logp=logp: [EQ('probability', c.o(0), exp(logp(c)))], panics=lambda c: TRUE)
        rc('mean', 'put::<%d>(o,0,m.mean());' % k, lambda c, ps=ps, n_=n_, k=k: [EQ('mean %d' % i, c.o(i), n_(c) * ps(c)[i]) for i in range(k)], no=k)
        rc('variance', 'put::<%d>(o,0,m.variance());' % k, lambda c, ps=ps, n_=n_, k=k: [EQ('variance %d' % i, c.o(i), n_(c) * ps(c)[i] * (1 - ps(c)[i])) for i in range(k)], no=k)
        idx = [(i, j) for i in range(k) for j in range(k)]
        rc('covariance', 'put2::<%d>(o,0,m.covariance());' % k, lambda c, ps=ps, n_=n_, k=k, idx=idx: [
            EQ('covariance %d,%d' % ij, c.o(ij[0] * k + ij[1]), n_(c) * ps(c)[ij[0]] * ((1 if ij[0] == ij[1] else 0) - ps(c)[ij[1]])) for ij in idx], no=k * k)
        # any other total
        other = lambda c, k=k, pre=pre: pre(c) + [between(c.n[k], 0, 8 * BIG), bnot(same(c.n[k], fsumi([c.n[i] for i in range(k)])))]
        out.append(RCase('multinomial_any_%d_impossible' % k, (base % 'O(o,0,m.pmf(&x).unwrap());').replace(' + '.join('x[%d]' % i for i in range(k)), 'N(n,%d) as usize' % k, 1), na=max(1, k - 1), nn=k + 1, core=False, hints=hints, pre=other,
                         post=lambda c: [EQ('probability', c.o(0), R(0))]))
    # an outcome of probability zero that does not occur
    for k in (2, 3):
        for j in range(k):
            ws = lambda c, k=k, j=j: (lambda w: w[:j] + [R(0)] + w[j:])(weights(c, k - 1, 0))
            args = ', '.join('A(a,%d)' % i for i in range(k - 2))
            last = '1.0' + ''.join(' - A(a,%d)' % i for i in range(k - 2))
            w = ([x for x in args.split(', ') if x] + [last])
            w.insert(j, '0.0')
            others = [i for i in range(k) if i != j]
            xv = ['N(n,%d) as usize' % others.index(i) if i != j else '0' for i in range(k)]
            X = lambda c, k=k: [tm.itof(False, c.n[i]) for i in range(k - 1)]
            lp = lambda c, X=X, k=k: LG(fsum(X(c)) + 1) + fsum(x * ln(p) - LG(x + 1) for x, p in zip(X(c), weights(c, k - 1, 0)))
            base = 'let x = [%s]; let m = Multinomial::<%d>::new_unchecked(%s, [%s]); %%s 1' % (', '.join(xv), k, ' + '.join('x[%d]' % i for i in range(k)), ', '.join(w))
            pre = lambda c, k=k: onsimplex(c, k - 1, 0) + [between(c.n[i], 0, BIG) for i in range(k - 1)]
            hints = {'a%d' % i: (0.02, 0.9 / k) for i in range(k)}
            def rc(nm, code, post, no=1, panics=None, k=k, base=base, pre=pre, hints=hints, j=j):
                out.append(RCase('multinomial_zero%d_%d_%s' % (j, k, nm), base % code, na=max(1, k - 2), nn=k - 1, no=no, core=False, hints=hints, pre=pre, panics=panics, post=post))
            rc('log_pmf', 'O(o,0,m.log_pmf(&x));', lambda c, lp=lp: [EQ('log probability', c.o(0), lp(c))])
            rc('pmf', 'O(o,0,m.pmf(&x).unwrap());', lambda c, lp=lp: [EQ('probability', c.o(0), exp(lp(c)))], panics=lambda c: TRUE)
            rc('covariance', 'put2::<%d>(o,0,m.covariance());' % k, lambda c, X=X, ws=ws, k=k: [
                EQ('covariance %d,%d' % (a, b), c.o(a * k + b), fsum(X(c)) * ws(c)[a] * ((1 if a == b else 0) - ws(c)[b])) for a in range(k) for b in range(k)], no=k * k)


def fsumi(xs):
    s = xs[0]
    for x in xs[1:]:
        s = tm.ibin('add', s, x)
    return s


def lognormals(out, tier):
    fams = []
    for n in (1, 2, 3):
        k = n * (n + 1) // 2
        fams.append(('general_%d' % n, n, k, 'MvLogNormal::<%d, [[f64; %d]; %d]>::new%%s(arr::<%d>(a,0), llt::<%d>(a,%d))' % (n, n, n, n, n, n), lambda s, n=n: tri(n, s),
                     lambda s, n=n: [gt(s[i * (i + 3) // 2], Z) for i in range(n)], {'a%d' % (n + i * (i + 3) // 2): (0.5, 1.2) for i in range(n)}, '[[f64; %d]; %d]' % (n, n)))
    for n in (1, 2, 3, 4):
        pos = lambda s: [gt(x, Z) for x in s]
        fams.append(('diagonal_%d' % n, n, n, 'MvLogNormal::<%d, [f64; %d]>::diagonal%%s(arr::<%d>(a,0), arr::<%d>(a,%d))' % (n, n, n, n, n), lambda s: diag([sq(x) for x in s]), pos, {}, '[f64; %d]' % n))
        fams.append(('isotropic_%d' % n, n, 1, 'MvLogNormal::<%d, f64>::isotropic%%s(arr::<%d>(a,0), A(a,%d))' % (n, n, n), lambda s, n=n: diag([sq(s[0])] * n), pos, {}, 'f64'))
    for name, n, k, ctor, low, valid, hints, S in fams:
        mu = lambda c, n=n: [c.a[i] for i in range(n)]
        sc = lambda c, n=n, k=k: [c.a[n + i] for i in range(k)]
        xs = lambda c, n=n, k=k: [c.a[n + k + i] for i in range(n)]
        L = lambda c, low=low, sc=sc: low(sc(c))
        cov = lambda c, L=L: gram(L(c))
        lp = lambda c, L=L, mu=mu, xs=xs, n=n: -fsum(y * y for y in forward(L(c), [ln(x) - m for x, m in zip(xs(c), mu(c))])) / 2 - n * ln(2 * PI) / 2 - fsum(ln(L(c)[i][i]) for i in range(n)) - fsum(ln(x) for x in xs(c))
        det = lambda c, L=L, n=n: fprod(L(c)[i][i] ** 2 for i in range(n))
        pdf = lambda c, L=L, mu=mu, xs=xs, det=det, n=n: exp(-fsum(y * y for y in forward(L(c), [ln(x) - m for x, m in zip(xs(c), mu(c))])) / 2) / (sq((2 * PI) ** n * det(c)) * fprod(xs(c)))
        mean = lambda c, i, mu=mu, cov=cov: exp(mu(c)[i] + cov(c)[i][i] / 2)
        lcov = lambda c, i, j, mean=mean, cov=cov: mean(c, i) * mean(c, j) * (exp(cov(c)[i][j]) - 1)
        h = {'a%d' % i: (-1.5, 1.5) for i in range(n)}
        h.update(hints)
        h.update({'a%d' % (n + k + i): (0.2, 4) for i in range(n)})
        base = 'match %s { Ok(m) => { %%s 1 } Err(_) => 0 }' % (ctor % '')

        def rc(nm, code, post, point=False, no=1, base=base, name=name, n=n, k=k, valid=valid, sc=sc, xs=xs, h=h):
            out.append(RCase('lognormal_%s_%s' % (name, nm), base % code, na=n + k + (n if point else 0), no=no, core=False, hints=h,
                             pre=lambda c: valid(sc(c)) + ([gt(x, Z) for x in xs(c)] if point else []),
                             post=lambda c: constructed(c) + (post(c) if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
        X = 'let x = arr::<%d>(a,%d);' % (n, n + k)
        rc('pdf', X + ' O(o,0,m.pdf(&x));', lambda c, pdf=pdf: [EQ('density', c.o(0), pdf(c))], point=True)
        rc('log_pdf', X + ' O(o,0,m.log_pdf(&x));', lambda c, lp=lp: [EQ('log density', c.o(0), lp(c))], point=True)
        rc('mean', 'put::<%d>(o,0,m.mean());' % n, lambda c, mean=mean, n=n: [EQ('mean %d' % i, c.o(i), mean(c, i)) for i in range(n)], no=n)
        rc('variance', 'put::<%d>(o,0,m.variance());' % n, lambda c, lcov=lcov, n=n: [EQ('variance %d' % i, c.o(i), lcov(c, i, i)) for i in range(n)], no=n)
        idx = [(i, j) for i in range(n) for j in range(n)]
        rc('covariance', 'put2::<%d>(o,0,m.covariance());' % n, lambda c, lcov=lcov, n=n, idx=idx: [EQ('covariance %d,%d' % ij, c.o(ij[0] * n + ij[1]), lcov(c, *ij)) for ij in idx], no=n * n)

        def sample(c, mu=mu, L=L, n=n):
            return gaussian(c, [c.o(i) for i in range(n)], mu(c), L(c), n, exp, ln)
        rc('sample', 'put::<%d>(o,0,m.sample(&mut Rg));' % n, sample, no=n)
        for tag, e in (('unchecked', ctor % '_unchecked'), ('params', '{ let q = %s; MvLogNormal::<%d, %s>::from(q.params()) }' % (ctor % '_unchecked', n, S))):
            rc(tag, X + 'O(o,0,m.pdf(&x)); put::<%d>(o,1,m.mean());' % n, lambda c, pdf=pdf, mean=mean, n=n: [EQ('density', c.o(0), pdf(c))] + [EQ('mean %d' % i, c.o(1 + i), mean(c, i)) for i in range(n)],
               point=True, no=1 + n, base='{ let m = %s; %%s 1 }' % e)
    for nm, e, m, s in (('homogeneous', 'MvLogNormal::<2, f64>::homogeneous(A(a,2), A(a,3)).unwrap()', 2, 3), ('homogeneous_unchecked', 'MvLogNormal::<2, f64>::homogeneous_unchecked(A(a,2), A(a,3))', 2, 3),
                        ('standard', 'MvLogNormal::<2, f64>::standard().unwrap()', None, None), ('standard_unchecked', 'MvLogNormal::<2, f64>::standard_unchecked()', None, None)):
        def post(c, m=m, s=s):
            mu, v = (R(0), R(1)) if m is None else (c.a[m], c.a[s])
            return [EQ('density', c.o(0), exp(-((ln(c.a[0]) - mu) ** 2 + (ln(c.a[1]) - mu) ** 2) / (2 * v)) / (2 * PI * v * c.a[0] * c.a[1]))] + [EQ('mean %d' % i, c.o(1 + i), exp(mu + v / 2)) for i in range(2)]
        out.append(RCase('lognormal_' + nm, 'let m = %s; let x = arr::<2>(a,0); O(o,0,m.pdf(&x)); put::<2>(o,1,m.mean()); 1' % e, na=4, no=3, core=False, pre=lambda c: [gt(c.a[i], Z) for i in (0, 1, 3)], post=post))


def simplices(out, tier):
    for n in (1, 2, 3, 4, 5):
        def post(c, n=n):
            if len(c.draws) != n or any(dr[1] not in (0, 1, 5, 6, 11) for dr in c.draws):
                return [OPEN('the point is uniform on the simplex (drawn another way)')]
            # exponential variables over their sum; -ln U of a uniform one is exponential
            def g(flip):
                r = []
                for k, kind, x, dp in c.draws:
                    dp = lift(dp)
                    u = (x - dp[0]) / (dp[1] - dp[0]) if kind == 1 else x
                    r.append(x * dp[0] if kind == 11 else -ln(1 - u if flip else u))
                return [t / fsum(r) for t in r]
            outs = [c.o(i) for i in range(n)]
            # a uniform number may be used either way round
            w = g(not way(c, int(agree(list(zip(outs, g(False))))) - int(agree(list(zip(outs, g(True)))))))
            return [EQ('coordinate %d' % i, c.o(i), w[i]) for i in range(n)]

        def dpre(dr):
            r = []
            for d in dr:
                p = lift(d[3])
                if d[1] == 1:
                    r += [gt(d[2], p[0]), lt(d[2], p[1])]
                elif d[1] == 11:
                    r.append(gt(d[2], Z))
                else:
                    r += [gt(d[2], Z), lt(d[2], ONE)]
            return r
        out.append(RCase('simplex_%d_sample' % n, 'put::<%d>(o,0,SimplexVector::<%d>::sample(&mut Rg).unwrap()); 1' % (n, n), na=1, no=n, core=False, dpre=dpre, post=post))
        out.append(RCase('simplex_%d_centre' % n, 'put::<%d>(o,0,SimplexVector::<%d>::centre().unwrap()); 1' % (n, n), na=1, no=n, core=False, post=lambda c, n=n: [EQ('weight %d' % i, c.o(i), R(1, n)) for i in range(n)]))


def cases(tier):
    out = []
    dirichlet(out, tier)
    multinomial(out, tier)
    counts(out, tier)
    lognormals(out, tier)
    simplices(out, tier)
    return out


BOUNDS = 'Dirichlet and simplex dimensions 1 to 8 (11 in the thorough tier), multinomial 1 to 4, log-normal 1 to 4 (general shape to 3); 0, 1, 2, 3 and 5 trials for the whole law (7 in the thorough tier), every number of trials up to 10^9 for the mass, mean and covariance; every real parameter and every point of the open simplex or positive orthant'
ASSUME = ['exact real arithmetic', 'the gamma, normal and uniform generators have the laws they document', 'LAPACK and BLAS routines compute the matrix functions they document']
