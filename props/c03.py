"""C03: arithmetic and conversions of Probability."""
from common import *

TITLE = 'Probability arithmetic is checked float arithmetic that never yields an invalid probability'
HELPERS = '''
use crate::*;
use crate::params::Param;
use std::convert::TryFrom;
unsafe fn p(a: *const f64, i: usize) -> Probability { Probability::new_unchecked(A(a, i)) }
'''
CORE = False
prob = lambda x: band(ge(x, Z), le(x, ONE))
OPS = {'add': ('+', 'fadd'), 'sub': ('-', 'fsub'), 'mul': ('*', 'fmul'), 'div': ('/', 'fdiv'), 'rem': ('%', 'frem')}


def cases(tier):
    out = []
    for nm, (s, op) in OPS.items():
        want = lambda c, op=op: tm.fbin(op, c.a[0], c.a[1])
        for i, (l, r) in enumerate((('p(a,0)', 'p(a,1)'), ('p(a,0)', '&p(a,1)'), ('&p(a,0)', 'p(a,1)'), ('&p(a,0)', '&p(a,1)'))):
            if nm == 'mul':
                out.append(Case('pp_mul_%d' % i, 'O(o,0,(%s * %s).unwrap()); 0' % (l, r), na=2,
                                post=lambda c, want=want: [('the product', fsame(c, 0, want(c)))]))
                continue
            out.append(Case('pp_%s_%d' % (nm, i), 'match %s %s %s { Ok(q) => { O(o,0,q.unwrap()); 1 } Err(_) => { O(o,0,A(a,0) %s A(a,1)); 0 } }' % (l, s, r, s), na=2,
                            post=lambda c, want=want: [('Ok exactly when the result is a probability', iff(retis(c, 1), prob(want(c)))),
                                                       ('the exact float result', fsame(c, 0, want(c)))]))
        for i, (l, r) in enumerate((('A(a,0)', 'p(a,1)'), ('A(a,0)', '&p(a,1)'), ('&A(a,0)', 'p(a,1)'), ('&A(a,0)', '&p(a,1)'),
                                    ('p(a,0)', 'A(a,1)'), ('p(a,0)', '&A(a,1)'), ('&p(a,0)', 'A(a,1)'), ('&p(a,0)', '&A(a,1)'))):
            out.append(Case('mix_%s_%d' % (nm, i), 'let r: f64 = %s %s %s; O(o,0,r); 0' % (l, s, r), na=2,
                            post=lambda c, want=want: [('the float result', fsame(c, 0, want(c)))]))
    out.append(Case('mul_closed', 'O(o,0,(p(a,0) * p(a,1)).unwrap()); (p(a,0) * p(a,1)).is_valid() as i64', na=2,
                    pre=lambda c: [prob(c.a[0]), prob(c.a[1])], abstract=(), timeout=120000,
                    post=lambda c: [('a product of probabilities is a probability', retis(c, 1))]))
    for i, e in enumerate(('!p(a,0)', '!&p(a,0)')):
        out.append(Case('not_%d' % i, 'let r = %s; O(o,0,r.unwrap()); r.is_valid() as i64' % e, na=1,
                        post=lambda c: [('one minus p', fsame(c, 0, tm.fbin('fsub', ONE, c.a[0])))]))
        out.append(Case('not_closed_%d' % i, 'let r = %s; r.is_valid() as i64' % e, na=1, pre=lambda c: [prob(c.a[0])], abstract=(),
                        post=lambda c: [('the complement of a probability is a probability', retis(c, 1))]))
        out.append(Case('not_ends_%d' % i, 'O(o,0,(!Probability::zero()).unwrap()); O(o,1,(!Probability::one()).unwrap()); 0', no=2,
                        post=lambda c: [('not 0 = 1', eqf(c.o(0), ONE)), ('not 1 = 0', eqf(c.o(1), Z))]))
    for nm, e in (('new', 'Probability::new(A(a,0))'), ('try_from', 'Probability::try_from(A(a,0))')):
        out.append(Case(nm, 'match %s { Ok(q) => { O(o,0,q.unwrap()); O(o,1,f64::from(q)); O(o,2,*q.value()); O(o,3,q.into_value()); 1 } Err(_) => { for i in 0..4 { O(o,i,A(a,0)) } 0 } }' % e, na=1, no=4,
                        post=lambda c: [('accepts exactly [0, 1]', iff(retis(c, 1), prob(c.a[0])))] + [('keeps the value', fsame(c, i, c.a[0])) for i in range(4)]))
    out.append(Case('unchecked', 'O(o,0,p(a,0).unwrap()); p(a,0).is_valid() as i64', na=1,
                    post=lambda c: [('keeps the value', fsame(c, 0, c.a[0])), ('is_valid is membership in [0, 1]', iff(retis(c, 1), prob(c.a[0])))]))
    out.append(Case('constraints', 'let v = A(a,0); let mut ok = true; for k in <Probability as Param>::constraints().iter() { ok = ok && k.is_satisfied_by(&v); } ok as i64', na=1,
                    post=lambda c: [('constraints() describe what new accepts', iff(retis(c, 1), prob(c.a[0])))]))
    out.append(Case('consts', 'O(o,0,Probability::zero().unwrap()); O(o,1,Probability::half().unwrap()); O(o,2,Probability::one().unwrap()); O(o,3,Probability::default().unwrap()); 0', no=4,
                    post=lambda c: [('zero', eqf(c.o(0), Z)), ('half', eqf(c.o(1), f64(0.5))), ('one', eqf(c.o(2), ONE)), ('default', eqf(c.o(3), Z))]))
    out.append(Case('eq_f64', '(p(a,0) == A(a,1)) as i64', na=2, post=lambda c: [('float equality', iff(retis(c, 1), eqf(c.a[0], c.a[1])))]))
    out.append(Case('eq', '(p(a,0) == p(a,1)) as i64', na=2, post=lambda c: [('float equality', iff(retis(c, 1), eqf(c.a[0], c.a[1])))]))
    for nm, s, f in (('lt', '<', lt), ('le', '<=', le), ('gt', '>', gt), ('ge', '>=', ge)):
        out.append(Case('cmp_' + nm, '(p(a,0) %s p(a,1)) as i64' % s, na=2, post=lambda c, f=f: [('float order', iff(retis(c, 1), f(c.a[0], c.a[1])))]))
    for K in range(0, 5):
        ps = ', '.join('p(a,%d)' % i for i in range(K))
        fs = ' '.join('')
        out.append(Case('sum_%d' % K, 'let v: [Probability; %d] = [%s]; let w: [f64; %d] = [%s]; O(o,0,v.iter().sum::<f64>()); O(o,1,v.iter().copied().sum::<f64>()); O(o,2,w.iter().sum::<f64>()); 0'
                        % (K, ps, K, ', '.join('A(a,%d)' % i for i in range(K))), na=K, no=3,
                        post=lambda c: [('sum of references is the float sum', fsame(c, 0, c.o(2))), ('sum of values is the float sum', fsame(c, 1, c.o(2)))]))
    px = lambda c: [gt(c.a[0], Z), le(c.a[0], ONE)]
    out.append(RCase('ln', 'O(o,0,p(a,0).ln()); 0', na=1, pre=px, post=lambda c: [EQ('natural logarithm', c.o(0), tm.fun('log', c.a[0]))]))
    out.append(RCase('log2', 'O(o,0,p(a,0).log2()); 0', na=1, pre=px, post=lambda c: [EQ('binary logarithm', c.o(0), tm.fun('log', c.a[0]) / tm.const('ln2'))]))
    out.append(RCase('powf', 'O(o,0,p(a,0).powf(A(a,1))); 0', na=2, pre=px, hints={'a0': (0.01, 1)}, post=lambda c: [EQ('power', c.o(0), tm.fun('pow', c.a[0], c.a[1]))]))
    for k in (-2, -1, 0, 1, 2, 3, 5):
        out.append(RCase('powi_%s' % str(k).replace('-', 'm'), 'O(o,0,p(a,0).powi(%d)); 0' % k, na=1, pre=px, hints={'a0': (0.01, 1)},
                         post=lambda c, k=k: [EQ('integer power', c.o(0), c.a[0] ** k if k >= 0 else 1 / c.a[0] ** -k)]))
    return out


BOUNDS = ['every f64 bit pattern for both operands (including NaN, infinities, -0.0); sums of up to 4 terms; powi exponents -2..5']
ASSUME = ['ln, log2, powf and powi are read over the reals']
