"""C07: distribution functions."""
from dists import *

TITLE = 'Cumulative distribution functions equal the defining probability'
HELPERS = HEAD
CORE = False


def cases(tier):
    out = []
    for I in insts(few=None, sym=True):
        s = I.spec('cdf')
        if s is None:
            continue
        out += arg_case(I, 'cdf', 'd.cdf({x}).0', s, 'F(x)')
        out += arg_case(I, 'ccdf', 'd.ccdf({x}).0', s, '1 - F(x)', wrap=lambda v: 1 - v)
        if I.fixed and I.fixed != I.d.nvals[0] and not I.sym:
            continue
        if I.d.x == 'f' and I.d.name not in ('triangular', 'uniform', 'degenerate'):
            out += arg_case(I, 'log_cdf', 'd.log_cdf({x})', s, 'ln F(x)', wrap=ln, range01=2)
            out += arg_case(I, 'log_ccdf', 'd.log_ccdf({x})', s, 'ln (1 - F(x))', wrap=lambda v: ln(1 - v), range01=2)
    return out


BOUNDS = ['every real parameter and point of the support; integer parameters: every value from 1 to 10^9 where the formula is closed (binomial, beta-binomial, chi, chi-square, Erlang, F), small listed values otherwise; integer points: every value up to 2^53 (geometric, poisson) or 10^9 (binomial), small listed values otherwise']
ASSUME = ['exact real arithmetic; the special functions of the special_fun crate compute the functions they name',
          'for the logarithmic forms: a distribution function lies strictly between 0 and 1 inside the support']
