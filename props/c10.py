"""C10: mean, variance, standard deviation."""
from dists import *

TITLE = 'Means, variances and standard deviations are those of the distribution'
HELPERS = HEAD
CORE = False


def root(spec):
    if isinstance(spec, tuple):
        return (spec[0], lambda p: sq(spec[1](p)))
    return lambda p: sq(spec(p))


def posvar(spec, I):
    """the variance is positive where it exists"""
    f = spec[1] if isinstance(spec, tuple) else spec
    return f


def cases(tier):
    out = []
    for I in insts(few=None, sym=True):
        for fn in ('mean', 'variance'):
            s = I.spec(fn)
            if s is not None:
                out += scalar_case(I, fn, 'd.%s()' % fn, s, fn, undefined=True)
        v = I.spec('variance')
        if v is not None and not I.d.name.startswith('degenerate'):
            out += scalar_case(I, 'standard_deviation', 'd.standard_deviation()', root(v), 'standard deviation', positive=v)
    return out


BOUNDS = ['every real parameter; integer parameters: every value from 1 to 10^9 where the formula is closed in them (binomial, beta-binomial, chi, chi-square, Erlang, F), small listed values otherwise']
ASSUME = ['exact real arithmetic; special functions compute the functions they name',
          'where a moment does not exist any answer but a finite number is accepted',
          'a variance is positive where it exists']
