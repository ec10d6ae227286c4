"""C01: checked construction of parameters and distributions."""
from common import *

TITLE = 'Checked constructors accept exactly the valid parameters and keep them intact'
COREH = '''
use crate::params::{self as ps, Param, Loc, Scale, Rate, Shape, DOF, Count, Corr, Concentrations};
use crate::params::constraints::Constraint;
unsafe fn arr<const K: usize>(a: *const f64, i: usize) -> [f64; K] { let mut r = [0.0; K]; for j in 0..K { r[j] = A(a, i + j) } r }
unsafe fn vecf(a: *const f64, k: usize) -> Vec<f64> { let mut r = Vec::with_capacity(k); for i in 0..k { r.push(A(a, i)) } r }
'''
FULLH = '''
use crate::*;
use crate::params::Param;
unsafe fn arr<const K: usize>(a: *const f64, i: usize) -> [f64; K] { let mut r = [0.0; K]; for j in 0..K { r[j] = A(a, i + j) } r }
'''
HELPERS = {True: COREH, False: FULLH}
CORE = True

pos = lambda x: gt(x, Z)
nonneg = lambda x: ge(x, Z)
prob = lambda x: band(ge(x, Z), le(x, ONE))
any_ = lambda x: TRUE
TYPES = {'Loc': any_, 'Scale': pos, 'Rate': pos, 'Shape': pos, 'DOF': pos, 'Count': nonneg}

# distribution -> module, constructor arguments, accessors of what it stores
# argument kinds: l any float, s positive float, p probability, k positive integer, n any natural
DISTS = [
    ('Arcsine', 'arcsine', 'ls', ['a.0', 'w.0']),
    ('Bernoulli', 'bernoulli', 'p', ['p.0']),
    ('Beta', 'beta', 'ss', ['alpha.0', 'beta.0']),
    ('BetaBinomial', 'beta_binomial', 'nss', ['n.0', 'alpha.0', 'beta.0']),
    ('BetaPrime', 'beta_prime', 'ss', ['alpha.0', 'beta.0']),
    ('Cauchy', 'cauchy', 'ls', ['x0.0', 'gamma.0']),
    ('Chi', 'chi', 'k', ['k.0']),
    ('ChiSq', 'chi_sq', 'k', ['k.0']),
    ('Cosine', 'cosine', 'ls', ['mu.0', 's.0']),
    ('Erlang', 'erlang', 'ks', ['k.0', 'lambda.0']),
    ('Exponential', 'exponential', 's', ['lambda.0']),
    ('FDist', 'f_dist', 'kk', ['d1.0', 'd2.0']),
    ('FoldedNormal', 'folded_normal', 'ls', ['mu.0', 'sigma.0']),
    ('Frechet', 'frechet', 's', ['alpha.0']),
    ('Gamma', 'gamma', 'ss', ['alpha.0', 'beta.0']),
    ('Geometric', 'geometric', 'p', ['p.0']),
    ('GeneralisedExtremeValue', 'gev', 'lss', ['mu.0', 'sigma.0', 'zeta.0']),
    ('GeneralisedPareto', 'gpd', 'lss', ['mu.0', 'sigma.0', 'zeta.0']),
    ('Gumbel', 'gumbel', 'ls', ['mu.0', 'beta.0']),
    ('InvGamma', 'inverse_gamma', 'ss', ['alpha.0', 'beta.0']),
    ('InvNormal', 'inverse_normal', 'ss', ['mu.0', 'lambda.0']),
    ('Laplace', 'laplace', 'ls', ['mu.0', 'b.0']),
    ('Levy', 'levy', 'ls', ['mu.0', 'c.0']),
    ('Logistic', 'logistic', 'ls', ['mu.0', 's.0']),
    ('LogNormal', 'lognormal', 'ls', ['mu.0', 'Sigma.0']),
    ('Normal', 'normal', 'ls', ['mu.0', 'Sigma.0']),
    ('Pareto', 'pareto', 'ss', ['x_m.0', 'alpha.0']),
    ('Poisson', 'poisson', 's', ['lambda.0']),
    ('Rayleigh', 'rayleigh', 's', ['sigma.0']),
    ('StudentT', 'student_t', 's', ['nu.0']),
    ('Triangular', 'triangular', 'lss', ['a.0', 'a2c.0', 'c2b.0']),
    ('Uniform::<f64>', 'uniform', 'ls', ['lb.0', 'width.0']),
]
KIND = {'l': any_, 's': pos, 'p': prob}


def accept(ps):
    return lambda c: [('accepts exactly the valid parameters', iff(retis(c, 1), ps(c)))]


def cases(tier):
    out = []
    # ---- parameter types
    for T_, pred in TYPES.items():
        out.append(Case('new_%s_f64' % T_, '''
            match %s::new(A(a,0)) {
                Ok(p) => { O(o, 0, *p.value()); O(o, 1, *p); O(o, 2, p.0); O(o, 3, p.into_value()); 1 }
                Err(e) => { O(o, 0, e_value(&e)); O(o, 1, e_value(&e)); O(o, 2, e_value(&e)); O(o, 3, e_value(&e)); 0 }
            }'''.replace('e_value(&e)', 'A(a,0)') % T_ if T_ == 'Loc' else '''
            match %s::new(A(a,0)) {
                Ok(p) => { O(o, 0, *p.value()); O(o, 1, *p); O(o, 2, p.0); O(o, 3, p.into_value()); 1 }
                Err(e) => { let v = e.value; O(o, 0, v); O(o, 1, v); O(o, 2, v); O(o, 3, v); 0 }
            }''' % T_, na=1, no=4,
            post=lambda c, pred=pred: [('accepts exactly the valid values', iff(retis(c, 1), pred(c.a[0])))] +
            [('keeps the value bit for bit (%s)' % w, fsame(c, i, c.a[0])) for i, w in
             enumerate(['value()', 'deref', 'field', 'into_value()'])]))
        out.append(Case('unchecked_%s' % T_, 'O(o, 0, *%s::new_unchecked(A(a,0)).value()); 0' % T_, na=1,
                        post=lambda c: [('keeps the value', fsame(c, 0, c.a[0]))]))
        out.append(Case('constraints_%s' % T_,
                        'let cs = <%s<f64> as Param>::constraints(); let v = A(a,0); let mut ok = true; for k in cs.iter() { ok = ok && k.is_satisfied_by(&v); } ok as i64' % T_,
                        na=1, post=lambda c, pred=pred: [('constraints() describe what new accepts', iff(retis(c, 1), pred(c.a[0])))]))
        if T_ == 'Loc':
            continue
        out.append(Case('new_%s_i64' % T_, '''
            match %s::new(N(n,0)) { Ok(p) => { OI(o, 0, *p.value()); 1 } Err(e) => { OI(o, 0, e.value); 0 } }''' % T_, nn=1,
            post=lambda c, T_=T_: [('accepts exactly the valid integers', iff(retis(c, 1), (
                icmp('slt', bv(0, 64), c.n[0]) if T_ != 'Count' else bnot(icmp('slt', c.n[0], bv(0, 64)))))),
                ('keeps the value', same(c.oi(0), c.n[0]))]))
        out.append(Case('new_%s_usize' % T_, '''
            match %s::new(N(n,0) as usize) { Ok(p) => { OI(o, 0, *p.value() as i64); 1 } Err(e) => { OI(o, 0, e.value as i64); 0 } }''' % T_, nn=1,
            post=lambda c, T_=T_: [('accepts exactly the valid naturals', iff(retis(c, 1), (
                icmp('ult', bv(0, 64), c.n[0]) if T_ != 'Count' else TRUE))), ('keeps the value', same(c.oi(0), c.n[0]))]))
        for K in range(1, 10 if tier == 'quick' else 17):
            p = lambda c, pred=pred, K=K: ands([pred(c.a[i]) for i in range(K)])
            out.append(Case('new_%s_arr%d' % (T_, K), '''
                match %s::new(arr::<%d>(a, 0)) { Ok(p) => { let v = p.into_value(); for i in 0..%d { O(o, i, v[i]) } 1 }
                Err(e) => { let v = e.value; for i in 0..%d { O(o, i, v[i]) } 0 } }''' % (T_, K, K, K), na=K, no=K,
                post=lambda c, p=p, K=K: [('accepts exactly the valid arrays', iff(retis(c, 1), p(c)))] +
                [('keeps element %d' % i, fsame(c, i, c.a[i])) for i in range(K)]))
            out.append(Case('new_%s_vec%d' % (T_, K), '''
                match %s::new(vecf(a, %d)) { Ok(p) => { let v = p.into_value(); for i in 0..v.len() { O(o, i, v[i]) } 1 + 2 * v.len() as i64 }
                Err(e) => { let v = e.value; for i in 0..v.len() { O(o, i, v[i]) } 2 * v.len() as i64 } }''' % (T_, K), na=K, no=K,
                post=lambda c, p=p, K=K: [('accepts exactly the valid vectors', ite(p(c), retis(c, 1 + 2 * K), retis(c, 2 * K)))] +
                [('keeps element %d' % i, fsame(c, i, c.a[i])) for i in range(K)]))
    corr = lambda x: band(ge(x, f64(-1.0)), le(x, ONE))
    out.append(Case('new_Corr', '''
        match Corr::new(A(a,0)) { Ok(p) => { O(o, 0, *p.value()); O(o, 1, p.into_value()); 1 } Err(e) => { O(o, 0, e.value); O(o, 1, e.value); 0 } }''', na=1, no=2,
        post=lambda c: [('accepts exactly [-1, 1]', iff(retis(c, 1), corr(c.a[0]))), ('keeps the value', fsame(c, 0, c.a[0])),
                        ('keeps the value', fsame(c, 1, c.a[0]))]))
    out.append(Case('constraints_Corr', 'let v = A(a,0); let mut ok = true; for k in <Corr as Param>::constraints().iter() { ok = ok && k.is_satisfied_by(&v); } ok as i64', na=1,
                    post=lambda c: [('constraints() describe what new accepts', iff(retis(c, 1), corr(c.a[0])))]))
    for K in range(0, 11 if tier == 'quick' else 18):
        p = lambda c, K=K: ands([pos(c.a[i]) for i in range(K)]) if K else FALSE
        out.append(Case('new_Conc_%d' % K, '''
            match Concentrations::<%d>::new(arr::<%d>(a, 0)) { Ok(p) => { let r = *p.value(); let v = p.into_value(); for i in 0..%d { O(o, i, v[i]); if r[i].to_bits() != v[i].to_bits() { return 2 } } 1 }
            Err(e) => { for i in 0..%d { O(o, i, e.value[i]) } 0 } }''' % (K, K, K, K), na=K, no=K,
            post=lambda c, p=p, K=K: [('accepts exactly non-empty positive concentrations', iff(retis(c, 1), p(c))),
                                      ('two-valued', bor(retis(c, 0), retis(c, 1)))] +
            [('keeps element %d' % i, fsame(c, i, c.a[i])) for i in range(K)]))
        out.append(Case('constraints_Conc_%d' % K, 'let v = arr::<%d>(a, 0); let mut ok = true; for k in <Concentrations<%d> as Param>::constraints().iter() { ok = ok && k.is_satisfied_by(&v); } ok as i64' % (K, K), na=K,
                        post=lambda c, p=p: [('constraints() describe what new accepts', iff(retis(c, 1), p(c)))]))
    # ---- distributions
    for D, mod, kinds, acc in DISTS:
        full = 'crate::univariate::%s::%s' % (mod, D)
        args, na, nn, preds, outs = [], 0, 0, [], []
        for i, k in enumerate(kinds):
            if k in 'nk':
                args.append('N(n,%d) as usize' % nn)
                preds.append(lambda c, j=nn, k=k: icmp('ult', bv(0, 64), c.n[j]) if k == 'k' else TRUE)
                outs.append(('n', nn))
                nn += 1
            else:
                args.append('A(a,%d)' % na)
                preds.append(lambda c, j=na, k=k: KIND[k](c.a[j]))
                outs.append(('a', na))
                na += 1
        def put(d):
            # params() is what was given, and rebuilding from it gives it again
            s = 'let p = %s.params();' % d
            for i, (ac, (t, j)) in enumerate(zip(acc, outs)):
                s += ('OI(o, %d, p.%s as i64);' if t == 'n' else 'O(o, %d, p.%s);') % (i, ac)
            s += 'let d2: %s = p.into(); let q = d2.params();' % full
            for i, (ac, (t, j)) in enumerate(zip(acc, outs)):
                s += ('OI(o, %d, q.%s as i64);' if t == 'n' else 'O(o, %d, q.%s);') % (i + len(acc), ac)
            return s
        K = len(kinds)
        safe = D.replace('::<f64>', '')

        def keep(c, outs=outs, K=K):
            r = []
            for i, (t, j) in enumerate(outs * 2):
                what = 'params() keeps argument %d' % i if i < K else 'rebuilding from params() keeps argument %d' % (i - K)
                r.append((what, same(c.oi(i), c.n[j]) if t == 'n' else fsame(c, i, c.a[j])))
            return r

        def postd(c, preds=preds, keep=keep):
            ok = ands([p(c) for p in preds])
            r = [('accepts exactly the valid parameters', iff(retis(c, 1), ok))]
            if c.ret.op != 'c' or c.ret.args[0] == 1:
                r += keep(c)
            return r
        out.append(Case('dist_new_' + safe, 'match %s::new(%s) { Ok(d) => { %s 1 } Err(_) => 0 }' % (full, ', '.join(args), put('d')),
                        na=na, nn=nn, no=2 * K, core=False, post=postd))
        out.append(Case('dist_unchecked_' + safe, 'let d = %s::new_unchecked(%s); %s 1' % (full, ', '.join(args), put('d')),
                        na=na, nn=nn, no=2 * K, core=False, post=keep))
    F = dict(core=False)
    # those with a different signature
    out.append(Case('dist_new_Binomial', 'match Probability::new(A(a,0)) { Err(_) => 0, Ok(p) => match crate::univariate::binomial::Binomial::new(N(n,0) as usize, p) { Err(_) => 2, Ok(d) => { let q = d.params(); O(o, 0, q.p.0); OI(o, 1, q.n.0 as i64); 1 } } }',
                    na=1, nn=1, no=2, core=False, post=lambda c: [('accepts exactly the valid parameters', ite(prob(c.a[0]), retis(c, 1), retis(c, 0)))] + (
                        [('keeps p', fsame(c, 0, c.a[0])), ('keeps n', same(c.oi(1), c.n[0]))] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    out.append(Case('params_new_Kumaraswamy', 'match crate::univariate::kumaraswamy::Params::new(A(a,0), A(a,1)) { Ok(p) => { let d: crate::univariate::kumaraswamy::Kumaraswamy = p.into(); O(o,0,d.params().a.0); O(o,1,d.params().b.0); 1 } Err(_) => 0 }',
                    na=2, no=2, core=False, post=lambda c: accept(lambda c: band(pos(c.a[0]), pos(c.a[1])))(c) + (
                        [('keeps a', fsame(c, 0, c.a[0])), ('keeps b', fsame(c, 1, c.a[1]))] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    out.append(Case('params_new_Weibull', 'match crate::univariate::weibull::Params::new(A(a,0), A(a,1)) { Ok(p) => { let d: crate::univariate::weibull::Weibull = p.into(); O(o,0,d.params().lambda.0); O(o,1,d.params().k.0); 1 } Err(_) => 0 }',
                    na=2, no=2, core=False, post=lambda c: accept(lambda c: band(pos(c.a[0]), pos(c.a[1])))(c) + (
                        [('keeps lambda', fsame(c, 0, c.a[0])), ('keeps k', fsame(c, 1, c.a[1]))] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    out.append(Case('dist_new_UniformInt', 'match crate::univariate::uniform::Uniform::<i64>::new(N(n,0), N(n,1) as u64) { Ok(d) => { let p = d.params(); OI(o,0,p.lb.0); OI(o,1,p.width.0 as i64); 1 } Err(_) => 0 }',
                    nn=2, no=2, core=False, pre=lambda c: [between(c.n[1], 0, 1 << 62), between(c.n[0], -(1 << 62), 1 << 61)],
                    post=lambda c: accept(lambda c: icmp('slt', bv(0, 64), c.n[1]))(c) + (
                        [('keeps lb', same(c.oi(0), c.n[0])), ('keeps width', same(c.oi(1), c.n[1]))] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    out.append(Case('degenerate', 'O(o,0,crate::univariate::degenerate::Degenerate::<f64>::new(A(a,0)).params().0); OI(o,1,crate::univariate::degenerate::Degenerate::<i64>::new(N(n,0)).params().0); 0',
                    na=1, nn=1, no=2, core=False, post=lambda c: [('keeps k', fsame(c, 0, c.a[0])), ('keeps integer k', same(c.oi(1), c.n[0]))]))
    out.append(Case('params_triangular_symmetric', 'match crate::univariate::triangular::Params::symmetric(A(a,0), A(a,1)) { Ok(_) => 1, Err(_) => 0 }', na=2, core=False,
                    post=lambda c: [('accepts only a lower end below the upper end', imp(retis(c, 1), lt(c.a[0], c.a[1]))),
                                    ('accepts every lower end below the upper end', imp(gt(tm.fbin('fsub', c.a[1], c.a[0]), f64(1e-300)), retis(c, 1))), ('two-valued', bor(retis(c, 0), retis(c, 1)))]))
    # ---- normal family
    m2 = '[A(a,0),A(a,1)]'
    out.append(Case('paired_new', 'match crate::normal::PairedNormal::new(%s, [A(a,2),A(a,3)]) { Ok(d) => { let p = d.params(); O(o,0,p.mu.0[0]); O(o,1,p.mu.0[1]); O(o,2,p.Sigma.0[0]); O(o,3,p.Sigma.0[1]); 1 } Err(_) => 0 }' % m2,
                    na=4, no=4, core=False, post=lambda c: accept(lambda c: band(pos(c.a[2]), pos(c.a[3])))(c) + (
                        [('keeps %d' % i, fsame(c, i, c.a[i])) for i in range(4)] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    out.append(Case('bivariate_new', 'match crate::normal::BvNormal::new(%s, [A(a,2),A(a,3)], A(a,4)) { Ok(d) => { let p = d.params(); O(o,0,p.mu.0[0]); O(o,1,p.mu.0[1]); O(o,2,(p.Sigma.0).0[0]); O(o,3,(p.Sigma.0).0[1]); O(o,4,(p.Sigma.0).1); 1 } Err(_) => 0 }' % m2,
                    na=5, no=5, core=False, post=lambda c: accept(lambda c: ands([pos(c.a[2]), pos(c.a[3]), corr(c.a[4])]))(c) + (
                        [('keeps %d' % i, fsame(c, i, c.a[i])) for i in range(5)] if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    for nm, call, pr in (('independent', 'independent(%s, [A(a,2),A(a,3)])' % m2, lambda c: band(pos(c.a[2]), pos(c.a[3]))),
                         ('isotropic', 'isotropic(%s, A(a,2))' % m2, lambda c: pos(c.a[2]))):
        out.append(Case('bivariate_' + nm, 'match crate::normal::BvNormal::%s { Ok(d) => { let p = d.params(); O(o,0,p.mu.0[0]); O(o,1,p.mu.0[1]); O(o,2,(p.Sigma.0).0[0]); O(o,3,(p.Sigma.0).0[1]); O(o,4,(p.Sigma.0).1); 1 } Err(_) => 0 }' % call,
                        na=4, no=5, core=False, post=lambda c, pr=pr, nm=nm: accept(pr)(c) + (
                            [('keeps %d' % i, fsame(c, i, c.a[2 if i == 3 and nm == 'isotropic' else i])) for i in range(4)] + [('no correlation', fsame(c, 4, Z))]
                            if c.ret.op == 'c' and c.ret.args[0] == 1 else [])))
    for K in range(1, 6):
        out.append(Case('mv_diagonal_%d' % K, 'crate::normal::DiagonalCovariance::<%d>::diagonal(arr::<%d>(a, 0)).is_ok() as i64' % (K, K), na=K, core=False,
                        post=accept(lambda c, K=K: ands([pos(c.a[i]) for i in range(K)]))))
    out.append(Case('isotropic_cov', 'match crate::normal::Covariance::isotropic(A(a,0)) { Ok(p) => { O(o,0,p.0); 1 } Err(e) => { O(o,0,e.value); 0 } }', na=1, core=False,
                    post=lambda c: accept(lambda c: pos(c.a[0]))(c) + [('keeps the value', fsame(c, 0, c.a[0]))]))
    for K in range(1, 6):
        out.append(Case('dirichlet_new_%d' % K, 'crate::multivariate::dirichlet::Dirichlet::<%d>::new(arr::<%d>(a, 0)).is_ok() as i64' % (K, K), na=K, core=False,
                        post=accept(lambda c, K=K: ands([pos(c.a[i]) for i in range(K)]))))
    return out


BOUNDS = ['every f64 bit pattern, every i64 and usize; arrays and vectors of length <= 9 (16 in the thorough tier), concentrations up to 10 (17)']
ASSUME = ['an error value is only inspected where the API exposes it']
