"""C08: densities and mass functions."""
from dists import *

TITLE = 'Densities and mass functions equal their defining formula, in plain and log form'
HELPERS = HEAD
CORE = False


def cases(tier):
    out = []
    for I in insts(few=None, sym=True, large=True):
        s = I.spec('pdf')
        first = not I.fixed or I.sym or I.fixed == I.d.nvals[0] or tier == 'thorough'
        if s is not None:
            out += arg_case(I, 'pdf', 'd.pdf({x})', s, 'f(x)')
            if first and I.d.name not in ('triangular', 'uniform', 'degenerate'):
                out += arg_case(I, 'log_pdf', 'd.log_pdf({x})', s, 'ln f(x)', wrap=ln, range01=1)
        s = I.spec('pmf')
        if s is not None:
            out += arg_case(I, 'pmf', 'd.pmf({x}).0', s, 'P(X = k)')
            if first and not I.d.edge and I.d.name not in ('uniform_int', 'degenerate_int'):
                out += arg_case(I, 'log_pmf', 'd.log_pmf({x})', s, 'ln P(X = k)', wrap=ln)
    # at an end that belongs to the support, or where the density vanishes
    UV = 'crate::univariate::'
    for nm, mk, na, x, want in (('exponential_0', UV + 'exponential::Exponential::new(A(a,0))', 1, '0.0', lambda p: p[0]), ('pareto_low', UV + 'pareto::Pareto::new(A(a,0), A(a,1))', 2, 'A(a,0)', lambda p: p[1] / p[0]),
                                ('uniform_low', UV + 'uniform::Uniform::<f64>::new(B(a,0), A(a,1))', 2, 'B(a,0)', lambda p: 1 / p[1]),
                                ('uniform_high', UV + 'uniform::Uniform::<f64>::new(B(a,0), A(a,1))', 2, '(B(a,0) + A(a,1))', lambda p: 1 / p[1]),
                                ('folded_0', UV + 'folded_normal::FoldedNormal::new(B(a,0), A(a,1))', 2, '0.0', lambda p: sq(2 / PI) / p[1] * exp(-(p[0] * p[0]) / (2 * p[1] * p[1]))),
                                ('triangular_low', UV + 'triangular::Triangular::new(B(a,0), A(a,1), A(a,2))', 3, 'B(a,0)', lambda p: R(0)),
                                ('triangular_high', UV + 'triangular::Triangular::new(B(a,0), A(a,1), A(a,2))', 3, '(B(a,0) + A(a,1) + A(a,2))', lambda p: R(0)),
                                ('triangular_mode', UV + 'triangular::Triangular::new(B(a,0), A(a,1), A(a,2))', 3, '(B(a,0) + A(a,1))', lambda p: 2 / (p[1] + p[2])),
                                ('rayleigh_0', UV + 'rayleigh::Rayleigh::new(A(a,0))', 1, '0.0', lambda p: R(0)),
                                ('laplace_mode', UV + 'laplace::Laplace::new(B(a,0), A(a,1))', 2, 'B(a,0)', lambda p: 1 / (2 * p[1])),
                                ('gpd_low', UV + 'gpd::GeneralisedPareto::new(B(a,0), A(a,1), A(a,2))', 3, 'B(a,0)', lambda p: 1 / p[1]),
                                ('gumbel_mode', UV + 'gumbel::Gumbel::new(B(a,0), A(a,1))', 2, 'B(a,0)', lambda p: exp(R(-1)) / p[1]),
                                ('cosine_low', UV + 'cosine::Cosine::new(B(a,0), A(a,1))', 2, '(B(a,0) - A(a,1))', lambda p: R(0)),
                                ('cosine_high', UV + 'cosine::Cosine::new(B(a,0), A(a,1))', 2, '(B(a,0) + A(a,1))', lambda p: R(0))):
        free = [int(y.split(')')[0].split(',')[1]) for y in mk.split('B(a')[1:]]
        out.append(RCase('%s_pdf_there' % nm, 'match %s { Ok(d) => { O(o,0,d.pdf(&%s)); 1 } Err(_) => 0 }' % (mk.replace('B(a', 'A(a'), x.replace('B(a', 'A(a')), na=na, core=False,
                         pre=lambda c, na=na, free=free: [gt(c.a[i], Z) for i in range(na) if i not in free], post=lambda c, want=want: constructed(c) + [EQ('f(x)', c.o(0), want(c.a))]))
    return out


BOUNDS = ['every real parameter and point of the support; integer parameters: every value from 1 to 10^9 where the formula is closed (binomial, beta-binomial, chi, chi-square, Erlang, F), small listed values otherwise; integer points: every value up to 2^53 (geometric, poisson) or 10^9 (binomial), small listed values otherwise']
ASSUME = ['exact real arithmetic; the special functions of the special_fun crate compute the functions they name',
          'for the logarithmic form: a density is positive inside the support']
