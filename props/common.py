import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import term as tm
from term import T, bv, f64, boolc, icmp, band, bor, bnot, ands, ors, fcmp, ite
from check import Case, Ctx

TRUE, FALSE = boolc(1), boolc(0)
Z, ONE = f64(0.0), f64(1.0)


def gt(x, y): return fcmp('ogt', x, y)
def ge(x, y): return fcmp('oge', x, y)
def lt(x, y): return fcmp('olt', x, y)
def le(x, y): return fcmp('ole', x, y)
def eqf(x, y): return fcmp('oeq', x, y)
def iff(a, b): return bnot(tm.bxor(a, b))
def imp(a, b): return bor(bnot(a), b)
def same(x, y): return icmp('eq', x, y)


def bits(x):
    """64-bit word of a float term"""
    if x.op == 'c':
        return bv(x.args[0], 64)
    if x.op == 'bits2f':
        return x.args[0]
    return tm.mk('f2bits', (x,), 64)


def fsame(c, i, x):
    """output word i is exactly the float x (NaN = NaN)"""
    o = c.o(i)
    if o is None:
        return FALSE
    if o is x:
        return TRUE
    return bor(bor(band(eqf(o, x), same(c.oi(i), bits(x))), band(fcmp('uno', o, o), fcmp('uno', x, x))),
               same(c.oi(i), bits(x)))


def retis(c, v):
    return same(c.ret, bv(v, 64))


def sbetween(n, lo, hi):
    m = (1 << n.sort) - 1
    return band(bnot(icmp('slt', n, bv(lo & m, n.sort))), bnot(icmp('slt', bv(hi & m, n.sort), n)))


def between(n, lo, hi):
    """signed"""
    return ands([bnot(icmp('slt', n, bv(lo, 64))), bnot(icmp('slt', bv(hi, 64), n))])


def ule(n, hi):
    return bnot(icmp('ult', bv(hi, 64), n))

from rcheck import RCase


def EQ(label, x, y): return ('eq', label, tm.lift(x), tm.lift(y))
def GE(label, x, y): return ('ge', label, tm.lift(x), tm.lift(y))
def HOLDS(label, b): return ('holds', label, b)
def OPEN(label): return ('open', label)      # outside what the oracle covers: reported as undecided


def fsum(xs):
    xs = list(xs)
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def fprod(xs):
    xs = list(xs)
    s = xs[0]
    for x in xs[1:]:
        s = s * x
    return s
