"""C13: Shannon entropy."""
from dists import *

TITLE = 'Shannon entropies are those of the distribution, in nats'
HELPERS = HEAD
CORE = False


def cases(tier):
    out = []
    for I in insts(few=None, sym=True):
        s = I.spec('entropy')
        if s is not None:
            out += scalar_case(I, 'entropy', 'd.shannon_entropy()', s, 'entropy')
    # the entropies of these have no closed form: each is held between bounds that are valid where stated
    un = 'crate::univariate::'
    ent = '{ Ok(d) => { O(o,0,d.shannon_entropy()); 1 } Err(_) => 0 }'
    h = lambda v: ln(2 * PI * exp(R(1)) * v) / 2
    B_ = un + 'binomial::Binomial::new(N(n,0) as usize, Probability::new_unchecked(A(a,0)))'
    P_ = un + 'poisson::Poisson::new(A(a,0))'
    npq = lambda c: tm.itof(False, c.n[0]) * c.a[0] * (1 - c.a[0])
    near = lambda x, y, d: band(le(x - y, d), le(y - x, d))
    binp = lambda c: [gt(c.a[0], Z), lt(c.a[0], ONE), between(c.n[0], 1, BIG)]
    out.append(RCase('binomial_entropy_law', 'match %s %s' % (B_, ent), na=1, nn=1, core=False, hints={'n0': (4, 40), 'a0': (0.3, 0.7)}, pre=lambda c: binp(c) + [ge(npq(c), ONE)],
                     post=lambda c: constructed(c) + [HOLDS('within 0.13/npq of the normal entropy', near(c.o(0) * npq(c), h(npq(c)) * npq(c), R(13, 100)))]))
    out.append(RCase('binomial_entropy_small', 'match %s %s' % (B_, ent), na=1, nn=1, core=False, hints={'n0': (1, 4), 'a0': (0.001, 0.2)}, pre=lambda c: binp(c) + [lt(npq(c), ONE)],
                     post=lambda c: constructed(c) + [HOLDS('not negative', ge(c.o(0), Z)), HOLDS('within 1/(24 npq) above the normal entropy', le((c.o(0) - h(npq(c))) * npq(c), R(1, 24)))]))
    l = lambda c: c.a[0]
    out.append(RCase('poisson_entropy_law', 'match %s %s' % (P_, ent), na=1, core=False, hints={'a0': (1.1, 30)}, pre=lambda c: [ge(l(c), ONE)],
                     post=lambda c: constructed(c) + [HOLDS('within 0.14/rate^3 of the expansion', near(c.o(0) * l(c) ** 3, (h(l(c)) - 1 / (12 * l(c)) - 1 / (24 * l(c) ** 2)) * l(c) ** 3, R(14, 100)))]))
    out.append(RCase('poisson_entropy_small', 'match %s %s' % (P_, ent), na=1, core=False, hints={'a0': (0.01, 0.99)}, pre=lambda c: [gt(l(c), Z), lt(l(c), ONE)],
                     post=lambda c: constructed(c) + [HOLDS('not negative', ge(c.o(0), Z)), HOLDS('within 1/(24 rate) above the normal entropy', le((c.o(0) - h(l(c))) * l(c), R(1, 24)))]))
    mu, la = lambda c: c.a[0], lambda c: c.a[1]
    x = lambda c: 2 * la(c) / mu(c)
    out.append(RCase('inverse_normal_entropy_law', 'match %sinverse_normal::InvNormal::new(A(a,0), A(a,1)) %s' % (un, ent), na=2, core=False, hints={'a0': (0.2, 5), 'a1': (0.2, 5)}, pre=lambda c: [gt(mu(c), Z), gt(la(c), Z)],
                     post=lambda c: constructed(c) + [EQ('entropy', c.o(0), h(mu(c) ** 3 / la(c)) - R(3, 2) * exp(x(c)) * tm.fun('sf_e1', x(c))),
                                                      HOLDS('at most that of a normal of equal variance', le(c.o(0), h(mu(c) ** 3 / la(c)))),
                                                      HOLDS('at least that less its correction', le(exp(2 * (h(mu(c) ** 3 / la(c)) - c.o(0)) / 3), 1 + 1 / x(c)))]))
    return out


BOUNDS = ['every real parameter; integer parameters: every value from 1 to 10^9 where the formula is closed in them (binomial, beta-binomial, chi, chi-square, Erlang, F), small listed values otherwise']
ASSUME = ['exact real arithmetic; special functions compute the functions they name']
