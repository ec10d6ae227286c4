"""C02: the constraint algebra."""
from common import *

TITLE = 'Constraints decide exactly their predicate, and combinators compose'
HELPERS = '''
use crate::params::constraints as cs;
use cs::Constraint;
#[derive(Debug, Clone, Copy)]
pub struct Sym(pub bool);
impl std::fmt::Display for Sym { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl<T> Constraint<T> for Sym { fn is_satisfied_by(&self, _: &T) -> bool { self.0 } }
unsafe fn B(n: *const i64, i: usize) -> bool { *n.add(i) & 1 != 0 }
// result of check: bit 0 accepted; out[0] the value handed back; out[1] 1 if the error's constraint rejects it
unsafe fn R(r: Result<f64, cs::UnsatisfiedConstraintError<f64>>, o: *mut f64) -> i64 {
    match r {
        Ok(v) => { O(o, 0, v); 1 }
        Err(e) => { O(o, 0, e.value); OI(o, 1, e.constraint.is_satisfied_by(&e.value) as i64); OI(o, 2, e.target.is_none() as i64); 0 }
    }
}
unsafe fn RI(r: Result<i64, cs::UnsatisfiedConstraintError<i64>>, o: *mut f64) -> i64 {
    match r {
        Ok(v) => { OI(o, 0, v); 1 }
        Err(e) => { OI(o, 0, e.value); OI(o, 1, e.constraint.is_satisfied_by(&e.value) as i64); 0 }
    }
}
unsafe fn RU(r: Result<usize, cs::UnsatisfiedConstraintError<usize>>, o: *mut f64) -> i64 {
    match r {
        Ok(v) => { OI(o, 0, v as i64); 1 }
        Err(e) => { OI(o, 0, e.value as i64); OI(o, 1, e.constraint.is_satisfied_by(&e.value) as i64); 0 }
    }
}
unsafe fn RA<const K: usize>(r: Result<[f64; K], cs::UnsatisfiedConstraintError<[f64; K]>>, o: *mut f64) -> i64 {
    match r {
        Ok(v) => { for i in 0..K { O(o, i, v[i]) } 1 }
        Err(e) => { for i in 0..K { O(o, i, e.value[i]) } OI(o, K, e.constraint.is_satisfied_by(&e.value) as i64); 0 }
    }
}
unsafe fn RV(r: Result<Vec<f64>, cs::UnsatisfiedConstraintError<Vec<f64>>>, o: *mut f64, k: usize) -> i64 {
    match r {
        Ok(v) => { let l = v.len(); for i in 0..l { O(o, i, v[i]) } 1 + 2 * l as i64 }
        Err(e) => { let l = e.value.len(); for i in 0..l { O(o, i, e.value[i]) } OI(o, k, e.constraint.is_satisfied_by(&e.value) as i64); 2 * l as i64 }
    }
}
unsafe fn arr<const K: usize>(a: *const f64) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, i) } r }
unsafe fn vec(a: *const f64, k: usize) -> Vec<f64> { let mut r = Vec::with_capacity(k); for i in 0..k { r.push(A(a, i)) } r }
'''


def cases(tier):
    out = []

    def scalar(name, ctor, pred, na=1, pre=None):
        """float constraint on a0, parameters a1.."""
        out.append(Case('is_' + name, 'Constraint::<f64>::is_satisfied_by(&%s, &A(a, 0)) as i64' % ctor, na=na,
                        post=lambda c: [('is_satisfied_by is the predicate', iff(retis(c, 1), pred(c)))], pre=pre))

        def post(c):
            p = pred(c)
            return [('accepts exactly the predicate', iff(retis(c, 1), p)),
                    ('hands the value back', fsame(c, 0, c.a[0])),
                    ('error constraint rejects the value', bor(p, same(c.oi(1), bv(0, 64))) if c.oi(1) is not None
                     else p)]
        out.append(Case('ck_' + name, 'R(Constraint::<f64>::check(%s, A(a, 0)), o)' % ctor, na=na, no=3, post=post, pre=pre))

    P = ['a[0]', 'a[1]']
    scalar('eq', 'cs::Equal(A(a,1))', lambda c: eqf(c.a[0], c.a[1]), 2)
    scalar('lt', 'cs::LessThan(A(a,1))', lambda c: lt(c.a[0], c.a[1]), 2)
    scalar('le', 'cs::LessThanOrEqual(A(a,1))', lambda c: le(c.a[0], c.a[1]), 2)
    scalar('gt', 'cs::GreaterThan(A(a,1))', lambda c: gt(c.a[0], c.a[1]), 2)
    scalar('ge', 'cs::GreaterThanOrEqual(A(a,1))', lambda c: ge(c.a[0], c.a[1]), 2)
    iv = lambda c: band(ge(c.a[0], c.a[1]), le(c.a[0], c.a[2]))
    scalar('interval', 'cs::Interval { lb: A(a,1), ub: A(a,2) }', iv, 3)
    scalar('neg', 'cs::Negative', lambda c: lt(c.a[0], Z))
    scalar('nonpos', 'cs::NonPositive', lambda c: le(c.a[0], Z))
    scalar('pos', 'cs::Positive', lambda c: gt(c.a[0], Z))
    scalar('nonneg', 'cs::NonNegative', lambda c: ge(c.a[0], Z))
    # combinators over concrete constraints
    scalar('not', 'cs::Not(cs::LessThan(A(a,1)))', lambda c: bnot(lt(c.a[0], c.a[1])), 2)
    scalar('notnot', 'cs::Not(cs::Not(cs::Interval { lb: A(a,1), ub: A(a,2) }))', iv, 3)
    scalar('or', 'cs::Or((cs::LessThan(A(a,1)), cs::GreaterThan(A(a,2))))',
           lambda c: bor(lt(c.a[0], c.a[1]), gt(c.a[0], c.a[2])), 3)
    scalar('and', 'cs::And((cs::GreaterThanOrEqual(A(a,1)), cs::LessThan(A(a,2))))',
           lambda c: band(ge(c.a[0], c.a[1]), lt(c.a[0], c.a[2])), 3)
    scalar('andnot', 'cs::And((cs::Not(cs::Equal(A(a,1))), cs::Or((cs::Positive, cs::Equal(A(a,2))))))',
           lambda c: band(bnot(eqf(c.a[0], c.a[1])), bor(gt(c.a[0], Z), eqf(c.a[0], c.a[2]))), 3)
    scalar('all_interval', 'cs::All(cs::Interval { lb: A(a,1), ub: A(a,2) })', iv, 3)
    scalar('all_or', 'cs::All(cs::Or((cs::Negative, cs::GreaterThan(A(a,1)))))',
           lambda c: bor(lt(c.a[0], Z), gt(c.a[0], c.a[1])), 2)
    out.append(Case('boxed', 'let b: Box<dyn Constraint<f64>> = Box::new(cs::And((cs::GreaterThan(A(a,1)), cs::Positive))); '
                    '(b.is_satisfied_by(&A(a,0)) as i64)', na=2,
                    post=lambda c: [('boxed constraint forwards', iff(retis(c, 1), band(gt(c.a[0], c.a[1]), gt(c.a[0], Z))))]))

    out.append(Case('boxed_ck', 'let b: Box<dyn Constraint<f64>> = Box::new(cs::Or((cs::GreaterThan(A(a,1)), cs::Not(cs::NonNegative)))); R(Constraint::<f64>::check(b, A(a,0)), o)',
                    na=2, no=3, post=lambda c: [('boxed constraint checks the same', iff(retis(c, 1), bor(gt(c.a[0], c.a[1]), bnot(ge(c.a[0], Z))))),
                                                ('hands the value back', fsame(c, 0, c.a[0]))]))

    # combinators over arbitrary sub-constraints (two or three arbitrary verdicts)
    def sym(name, ctor, f, k):
        bs = lambda c: [icmp('eq', tm.ibin('and', c.n[i], bv(1, 64)), bv(1, 64)) for i in range(k)]
        out.append(Case('symis_' + name, 'Constraint::<f64>::is_satisfied_by(&%s, &A(a, 0)) as i64' % ctor, na=1, nn=k,
                        post=lambda c: [('is_satisfied_by composes', iff(retis(c, 1), f(*bs(c))))]))
        out.append(Case('symck_' + name, 'R(Constraint::<f64>::check(%s, A(a, 0)), o)' % ctor, na=1, nn=k, no=3,
                        post=lambda c: [('check composes', iff(retis(c, 1), f(*bs(c)))),
                                        ('hands the value back', fsame(c, 0, c.a[0]))]))
    S = ['Sym(B(n,%d))' % i for i in range(4)]
    sym('not', 'cs::Not(%s)' % S[0], lambda p: bnot(p), 1)
    sym('or', 'cs::Or((%s, %s))' % (S[0], S[1]), bor, 2)
    sym('and', 'cs::And((%s, %s))' % (S[0], S[1]), band, 2)
    sym('all', 'cs::All(%s)' % S[0], lambda p: p, 1)
    sym('or_and', 'cs::Or((%s, cs::And((%s, %s))))' % (S[0], S[1], S[2]), lambda p, q, r: bor(p, band(q, r)), 3)
    sym('and_or', 'cs::And((cs::Or((%s, %s)), %s))' % (S[0], S[1], S[2]), lambda p, q, r: band(bor(p, q), r), 3)
    sym('not_and', 'cs::Not(cs::And((%s, cs::Not(%s))))' % (S[0], S[1]), lambda p, q: bnot(band(p, bnot(q))), 2)
    sym('all_or3', 'cs::All(cs::Or((%s, cs::Or((%s, %s)))))' % (S[0], S[1], S[2]), lambda p, q, r: bor(p, bor(q, r)), 3)
    sym('and4', 'cs::And((cs::And((%s, %s)), cs::And((%s, %s))))' % tuple(S), lambda p, q, r, s: ands([p, q, r, s]), 4)

    # integers
    sl = lambda x, y: icmp('slt', x, y)
    ul = lambda x, y: icmp('ult', x, y)

    def integer(name, ctor, pred, nn, ty, fn):
        out.append(Case('%s_%s' % (ty, name), '%s(Constraint::<%s>::check(%s, N(n,0) as %s), o)' % (fn, ty, ctor, ty), nn=nn, no=2,
                        post=lambda c: [('accepts exactly the predicate', iff(retis(c, 1), pred(c))),
                                        ('hands the value back', same(c.oi(0), c.n[0])),
                                        ('error constraint rejects the value',
                                         bor(pred(c), same(c.oi(1), bv(0, 64))) if c.oi(1) is not None else pred(c))]))
        out.append(Case('%s_is_%s' % (ty, name), 'Constraint::<%s>::is_satisfied_by(&%s, &(N(n,0) as %s)) as i64' % (ty, ctor, ty),
                        nn=nn, no=2, post=lambda c: [('is_satisfied_by is the predicate', iff(retis(c, 1), pred(c)))]))
    z = bv(0, 64)
    for ty, fn, l in (('i64', 'RI', sl), ('usize', 'RU', ul)):
        v = lambda i: 'N(n,%d) as %s' % (i, ty)
        integer('eq', 'cs::Equal(%s)' % v(1), lambda c: same(c.n[0], c.n[1]), 2, ty, fn)
        integer('lt', 'cs::LessThan(%s)' % v(1), lambda c, l=l: l(c.n[0], c.n[1]), 2, ty, fn)
        integer('le', 'cs::LessThanOrEqual(%s)' % v(1), lambda c, l=l: bnot(l(c.n[1], c.n[0])), 2, ty, fn)
        integer('gt', 'cs::GreaterThan(%s)' % v(1), lambda c, l=l: l(c.n[1], c.n[0]), 2, ty, fn)
        integer('ge', 'cs::GreaterThanOrEqual(%s)' % v(1), lambda c, l=l: bnot(l(c.n[0], c.n[1])), 2, ty, fn)
        integer('interval', 'cs::Interval { lb: %s, ub: %s }' % (v(1), v(2)),
                lambda c, l=l: band(bnot(l(c.n[0], c.n[1])), bnot(l(c.n[2], c.n[0]))), 3, ty, fn)
        integer('pos', 'cs::Positive', lambda c, l=l: l(z, c.n[0]), 1, ty, fn)
        integer('nonneg', 'cs::NonNegative', lambda c, l=l: bnot(l(c.n[0], z)), 1, ty, fn)
        integer('neg', 'cs::Negative', lambda c, l=l: l(c.n[0], z), 1, ty, fn)
        integer('nonpos', 'cs::NonPositive', lambda c, l=l: bnot(l(z, c.n[0])), 1, ty, fn)
        integer('natural', 'cs::Natural', lambda c, l=l: l(z, c.n[0]), 1, ty, fn)
        integer('all', 'cs::All(cs::Not(cs::LessThan(%s)))' % v(1), lambda c, l=l: bnot(l(c.n[0], c.n[1])), 2, ty, fn)
        integer('or', 'cs::Or((cs::Equal(%s), cs::GreaterThan(%s)))' % (v(1), v(2)),
                lambda c, l=l: bor(same(c.n[0], c.n[1]), l(c.n[2], c.n[0])), 3, ty, fn)
        integer('and', 'cs::And((cs::GreaterThan(%s), cs::LessThanOrEqual(%s)))' % (v(1), v(2)),
                lambda c, l=l: band(l(c.n[1], c.n[0]), bnot(l(c.n[2], c.n[0]))), 3, ty, fn)

    # arrays and vectors, element-wise
    elem = {
        'pos': ('cs::Positive', 0, lambda x, p: gt(x, Z)),
        'nonneg': ('cs::NonNegative', 0, lambda x, p: ge(x, Z)),
        'interval': ('cs::Interval { lb: A(a,%d), ub: A(a,%d) }', 2, lambda x, p: band(ge(x, p[0]), le(x, p[1]))),
        'or': ('cs::Or((cs::Negative, cs::GreaterThan(A(a,%d))))', 1, lambda x, p: bor(lt(x, Z), gt(x, p[0]))),
        'not': ('cs::Not(cs::LessThan(A(a,%d)))', 1, lambda x, p: bnot(lt(x, p[0]))),
    }
    top = 8 if tier == 'quick' else 11
    for en, (ctor, np_, f) in elem.items():
        for k in range(0, top + 1):
            cc = ctor % tuple(range(k, k + np_)) if np_ else ctor
            pred = lambda c, k=k, f=f: ands([f(c.a[i], c.a[k:]) for i in range(k)])

            def post(c, k=k, pred=pred, vec=False):
                r = c.ret
                acc = icmp('eq', tm.ibin('and', r, bv(1, 64)), bv(1, 64))
                p = pred(c)
                obs = [('accepts exactly when every element satisfies it', iff(acc, p))]
                if vec:
                    obs.append(('hands back all elements', same(tm.ibin('lshr', r, bv(1, 64)), bv(k, 64))))
                for i in range(k):
                    obs.append(('hands back element %d' % i, fsame(c, i, c.a[i])))
                obs.append(('error constraint rejects the value',
                            bor(p, same(c.oi(k), bv(0, 64))) if c.oi(k) is not None else p))
                return obs
            out.append(Case('arr%d_%s' % (k, en), 'RA::<%d>(Constraint::<[f64; %d]>::check(cs::All(%s), arr::<%d>(a)), o)' % (k, k, cc, k),
                            na=k + np_, no=k + 1, post=post))
            out.append(Case('arris%d_%s' % (k, en), 'Constraint::<[f64; %d]>::is_satisfied_by(&cs::All(%s), &arr::<%d>(a)) as i64' % (k, cc, k),
                            na=k + np_, post=lambda c, pred=pred: [('is_satisfied_by is element-wise', iff(retis(c, 1), pred(c)))]))
            out.append(Case('vec%d_%s' % (k, en), 'RV(Constraint::<Vec<f64>>::check(cs::All(%s), vec(a, %d)), o, %d)' % (cc, k, k),
                            na=k + np_, no=k + 1, post=lambda c, post=post: post(c, vec=True)))
            out.append(Case('vecis%d_%s' % (k, en), 'Constraint::<Vec<f64>>::is_satisfied_by(&cs::All(%s), &vec(a, %d)) as i64' % (cc, k),
                            na=k + np_, post=lambda c, pred=pred: [('is_satisfied_by is element-wise', iff(retis(c, 1), pred(c)))]))
    for k in range(0, top + 1):
        e = TRUE if k == 0 else FALSE
        for neg in (0, 1):
            C = 'cs::Not(cs::Empty)' if neg else 'cs::Empty'
            want = bnot(e) if neg else e
            nm = 'notempty' if neg else 'empty'
            out.append(Case('%s_arr%d' % (nm, k), 'RA::<%d>(Constraint::<[f64; %d]>::check(%s, arr::<%d>(a)), o)' % (k, k, C, k), na=k, no=k + 1,
                            post=lambda c, want=want, k=k: [('accepts exactly the predicate', iff(retis(c, 1), want))] +
                            [('hands back element %d' % i, fsame(c, i, c.a[i])) for i in range(k)]))
            out.append(Case('%s_vec%d' % (nm, k), 'RV(Constraint::<Vec<f64>>::check(%s, vec(a, %d)), o, %d) & 1' % (C, k, k), na=k, no=k + 1,
                            post=lambda c, want=want: [('accepts exactly the predicate', iff(retis(c, 1), want))]))
    # integer elements, nested arrays and combinators of collections
    sgt, uge = (lambda x: icmp('slt', z, x)), (lambda x, y: bnot(ul(x, y)))
    for k in range(0, top + 1):
        for nm, ty, con, f in (('pos', 'i64', 'cs::All(cs::Positive)', lambda x, p: sl(z, x)),
                               ('nonpos', 'i64', 'cs::All(cs::NonPositive)', lambda x, p: bnot(sl(z, x))),
                               ('le', 'i64', 'cs::All(cs::LessThanOrEqual(N(n,%d)))' % k, lambda x, p: bnot(sl(p, x))),
                               ('natural', 'usize', 'cs::All(cs::Natural)', lambda x, p: ul(z, x)),
                               ('ge', 'usize', 'cs::All(cs::GreaterThanOrEqual(N(n,%d) as usize))' % k, lambda x, p: bnot(ul(x, p)))):
            pr = lambda c, f=f, k=k: ands([f(c.n[i], c.n[k]) for i in range(k)])
            for col, ctor, T_ in (('arr', '{ let mut r = [0 as %s; %d]; for i in 0..%d { r[i] = N(n,i) as %s } r }' % (ty, k, k, ty), '[%s; %d]' % (ty, k)),
                                  ('vec', '(0..%d).map(|i| N(n,i) as %s).collect::<Vec<_>>()' % (k, ty), 'Vec<%s>' % ty)):
                out.append(Case('%s%d_%s_%s' % (col, k, ty, nm), "let v: %s = %s; match Constraint::<%s>::check(%s, v) { Ok(v) => { for i in 0..v.len() { OI(o, i, v[i] as i64) } 1 + 2 * v.len() as i64 } Err(e) => { for i in 0..e.value.len() { OI(o, i, e.value[i] as i64) } 2 * e.value.len() as i64 } }" % (T_, ctor, T_, con), nn=k + 1, no=max(k, 1),
                                post=lambda c, pr=pr, k=k: [('accepts exactly when every element satisfies it', iff(icmp('eq', tm.ibin('and', c.ret, bv(1, 64)), bv(1, 64)), pr(c))),
                                                            ('hands back all elements', same(tm.ibin('lshr', c.ret, bv(1, 64)), bv(k, 64)))] +
                                [('hands back element %d' % i, same(c.oi(i), c.n[i])) for i in range(k)]))
                out.append(Case('%sis%d_%s_%s' % (col, k, ty, nm), 'let v: %s = %s; Constraint::<%s>::is_satisfied_by(&%s, &v) as i64' % (T_, ctor, T_, con), nn=k + 1,
                                post=lambda c, pr=pr: [('is_satisfied_by is element-wise', iff(retis(c, 1), pr(c)))]))
    for r, k in ((1, 1), (1, 3), (2, 2), (3, 2), (2, 4)):
        out.append(Case('nested_%dx%d' % (r, k), 'let mut m = [[0.0; %d]; %d]; for i in 0..%d { for j in 0..%d { m[i][j] = A(a, i * %d + j) } } '
                        'Constraint::<[[f64; %d]; %d]>::is_satisfied_by(&cs::All(cs::All(cs::Positive)), &m) as i64 + 2 * Constraint::<[[f64; %d]; %d]>::check(cs::All(cs::All(cs::Positive)), m).is_ok() as i64'
                        % (k, r, r, k, k, k, r, k, r), na=r * k,
                        post=lambda c, m=r * k: [('nested element-wise', ite(ands([gt(c.a[i], Z) for i in range(m)]), retis(c, 3), retis(c, 0)))]))
    for k in range(0, 5):
        out.append(Case('vec%d_bounded' % k, "let v = vec(a, %d); let b = cs::And((cs::Not(cs::Empty), cs::All(cs::Interval { lb: A(a,%d), ub: A(a,%d) }))); RV(Constraint::<Vec<f64>>::check(b, v), o, %d) & 1"
                        % (k, k, k + 1, k), na=k + 2, no=k + 1,
                        post=lambda c, k=k: [('non-empty and element-wise', iff(retis(c, 1), ands([boolc(k > 0)] + [band(ge(c.a[i], c.a[k]), le(c.a[i], c.a[k + 1])) for i in range(k)])))] +
                        [('hands back element %d' % i, fsame(c, i, c.a[i])) for i in range(k)]))
    for k in range(1, 4):
        out.append(Case('square%d' % k, 'let m = [[A(a,0); %d]; %d]; Constraint::<[[f64; %d]; %d]>::is_satisfied_by(&cs::Square, &m) as i64' % (k, k, k, k),
                        na=1, post=lambda c: [('square arrays are square', retis(c, 1))]))
    # the internal assertion macro and error target
    for nm, mac, pred in (('pos', 'assert_constraint!(x+)', lambda c: gt(c.a[0], Z)),
                          ('eq', 'assert_constraint!(x == t)', lambda c: eqf(c.a[0], c.a[1])),
                          ('lt', 'assert_constraint!(x < t)', lambda c: lt(c.a[0], c.a[1])),
                          ('le', 'assert_constraint!(x <= t)', lambda c: le(c.a[0], c.a[1])),
                          ('gt', 'assert_constraint!(x > t)', lambda c: gt(c.a[0], c.a[1])),
                          ('ge', 'assert_constraint!(x >= t)', lambda c: ge(c.a[0], c.a[1]))):
        out.append(Case('macro_' + nm, 'let x = A(a,0); let t = A(a,1); R(%s, o)' % mac, na=2, no=3,
                        post=lambda c, pred=pred: [('assertion accepts exactly the predicate', iff(retis(c, 1), pred(c))),
                                                   ('hands the value back', fsame(c, 0, c.a[0]))]))
    out.append(Case('target', 'match Constraint::<f64>::check(cs::Positive, A(a,0)) { Ok(v) => 1, Err(e) => { let e = e.with_target("x"); '
                    'O(o, 0, e.value); OI(o, 1, e.constraint.is_satisfied_by(&e.value) as i64); '
                    'OI(o, 2, (e.target.as_ref().map(|s| s.len()) == Some(1)) as i64); 0 } }', na=1, no=3,
                    post=lambda c: [('naming the target keeps the value and the verdict',
                                     bor(retis(c, 1), ands([fsame(c, 0, c.a[0]), same(c.oi(1), bv(0, 64)), same(c.oi(2), bv(1, 64))])
                                         if c.oi(2) is not None else FALSE))]))
    return out


CORE = True
BOUNDS = ['every f64 bit pattern and every i64/usize value for scalars', 'arrays and vectors of length 0..8 (11 in the thorough tier)',
          'combinator nesting as listed in the cases, over arbitrary sub-constraint verdicts']
ASSUME = ['failure crate replaced by a content-free stand-in', 'error text and Debug/Display output not covered',
          'NaN payloads are not distinguished']
