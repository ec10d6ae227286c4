"""C11: skewness and kurtosis."""
from dists import *

TITLE = 'Skewness, kurtosis and excess kurtosis are those of the distribution'
HELPERS = HEAD
CORE = False


def plus3(s):
    if isinstance(s, tuple):
        return (s[0], lambda p: s[1](p) + 3)
    return lambda p: s(p) + 3


def cases(tier):
    out = []
    for I in insts(few=None, sym=True):
        v = I.spec('variance')
        s = I.spec('skewness')
        if s is not None:
            out += scalar_case(I, 'skewness', 'd.skewness()', s, 'skewness', undefined=True, positive=v)
        s = I.spec('exk')
        if s is not None:
            out += scalar_case(I, 'excess_kurtosis', 'd.excess_kurtosis()', s, 'excess kurtosis', undefined=True, positive=v)
            out += scalar_case(I, 'kurtosis', 'd.kurtosis()', I.spec('kurtosis') or plus3(s), 'kurtosis', undefined=True, positive=v)
    return out


BOUNDS = ['every real parameter; integer parameters: every value from 1 to 10^9 where the formula is closed in them (binomial, beta-binomial, chi, chi-square, Erlang, F), small listed values otherwise']
ASSUME = ['exact real arithmetic; special functions compute the functions they name',
          'where a moment does not exist any answer but a finite number is accepted',
          'a variance is positive where it exists']
