"""Numerical evaluation of terms (mpmath) and recognition of double literals."""
import math
import struct
from fractions import Fraction

import mpmath as mp
from mpmath import mpf

import term as tm
from term import T

mp.mp.dps = 40

CONSTF = {
    'pi': lambda: +mp.pi, 'e': lambda: +mp.e, 'euler': lambda: +mp.euler, 'zeta3': lambda: mp.zeta(3),
    'catalan': lambda: +mp.catalan, 'ln2': lambda: mp.log(2), 'lnpi': lambda: mp.log(mp.pi),
}
CONST = {k: f() for k, f in CONSTF.items()}


class Undefined(Exception):
    pass


def igam(a, x):
    if x <= 0:
        return mpf(0)
    if mp.isinf(x):
        return mpf(1)
    return mp.gammainc(a, 0, x, regularized=True)


def incbet(a, b, x):
    if x <= 0:
        return mpf(0)
    if x >= 1:
        return mpf(1)
    return mp.betainc(a, b, 0, x, regularized=True)


def _d(f):
    def g(*a):
        try:
            r = f(*a)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, mp.libmp.NoConvergence) as e:
            raise Undefined(str(e))
        if isinstance(r, mp.mpc):
            if abs(r.imag) > abs(r.real) * mpf(10) ** -25 + mpf(10) ** -30:
                raise Undefined('complex')
            r = r.real
        if mp.isnan(r):
            raise Undefined('nan')
        return r
    return g


def _pow(x, y):
    if x == 0 and y < 0:
        raise Undefined('0**-')
    if x < 0 and y != int(y):
        raise Undefined('pow')
    if x == 0:
        return mpf(1) if y == 0 else mpf(0)
    if x != 0 and abs(y) > 1000:
        e = y * mp.log(abs(x))
        if abs(e) > HUGE:
            return _exp(e)
    return mp.power(x, y)


HUGE = 10 ** 12     # numbers with more digits than this are not written down


def _exp(x):
    if x > HUGE:
        raise Undefined('exp')
    return mp.mpf(0) if x < -HUGE else mp.exp(x)


def _log(x):
    if x <= 0:
        raise Undefined('log')
    return mp.log(x)


def _sqrt(x):
    if x < 0:
        raise Undefined('sqrt')
    return mp.sqrt(x)


def _fdiv(x, y):
    if y == 0:
        raise Undefined('division')
    return x / y


def _ndtri(p):
    if not 0 < p < 1:
        raise Undefined('ndtri')
    return mp.sqrt(2) * mp.erfinv(2 * p - 1)


def _gamma(x):
    if x == int(x) and x <= 0:
        raise Undefined('gamma pole')
    return mp.gamma(x)


def _lgamma(x):
    if x == int(x) and x <= 0:
        raise Undefined('gamma pole')
    return mp.log(abs(mp.gamma(x))) if x < 0 else mp.loggamma(x)


FN = {
    'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': _fdiv,
    'fneg': lambda x: -x, 'fabs': abs, 'sqrt': _sqrt, 'exp': _exp, 'log': _log,
    'log2': lambda x: _log(x) / mp.log(2), 'log10': lambda x: _log(x) / mp.log(10), 'exp2': lambda x: mp.power(2, x),
    'pow': _pow, 'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'asin': mp.asin, 'acos': mp.acos, 'atan': mp.atan,
    'sinh': mp.sinh, 'cosh': mp.cosh, 'tanh': mp.tanh, 'floor': mp.floor, 'ceil': mp.ceil,
    'trunc': lambda x: mp.floor(x) if x >= 0 else mp.ceil(x), 'round': lambda x: mp.floor(abs(x) + mp.mpf(1) / 2) * mp.sign(x),
    'cbrt': mp.cbrt, 'atan2': mp.atan2,
    'sf_gamma': _gamma, 'sf_loggamma': _lgamma, 'sf_digamma': lambda x: mp.digamma(x),
    'sf_beta': lambda a, b: _gamma(a) * _gamma(b) / _gamma(a + b),
    'sf_factorial': lambda x: _gamma(x + 1), 'sf_rgamma': mp.rgamma,
    'sf_e1': mp.e1, 'sf_erf': mp.erf, 'sf_erfc': mp.erfc, 'sf_norm': mp.ncdf, 'sf_norm_inv': _ndtri,
    'sf_gammainc': lambda x, a: igam(a, x), 'sf_gammac': lambda x, a: 1 - igam(a, x) if x < 50 else mp.gammainc(a, x, mp.inf, regularized=True),
    'sf_gammac_inv': lambda y, a: gammac_inv(y, a),
    'sf_betainc': lambda x, a, b: incbet(a, b, x),
    'sf_betainc_inv': lambda y, a, b: betainc_inv(y, a, b),
    'sf_hyp2f1': lambda x, a, b, c: mp.hyp2f1(a, b, c, x), 'sf_hyp1f1': lambda x, a, b: mp.hyp1f1(a, b, x),
    'sf_besseli': lambda x, v: mp.besseli(v, x), 'sf_besselj': lambda x, v: mp.besselj(v, x),
    'sf_bessely': lambda x, v: mp.bessely(v, x),
    'sf_riemann_zeta': mp.zeta, 'sf_hurwitz_zeta': lambda x, q: mp.zeta(x, q),
    'owen_psi1': lambda x: mp.psi(1, x),
}
FN = {k: _d(f) for k, f in FN.items()}


def gammac_inv(y, a):
    return mp.findroot(lambda t: mp.gammainc(a, mp.exp(t), mp.inf, regularized=True) - y, mp.log(a))


def betainc_inv(y, a, b):
    return mp.findroot(lambda t: incbet(a, b, t) - y, (mpf('1e-12'), 1 - mpf('1e-12')), solver='anderson')


def evaluate(roots, env):
    """env: {var name: mpf | int | bool}. Raises Undefined."""
    memo = {}
    order = tm.walk(roots)
    for t in order:
        memo[t.id] = _ev(t, memo, env)
    out = []
    for r in roots:
        v = memo[r.id]
        if isinstance(v, Undefined):
            raise v
        out.append(v)
    return out


def _ev(t, memo, env):
    a = []
    for x in t.args:
        if isinstance(x, T):
            v = memo[x.id]
            a.append(v)
    op = t.op
    if op == 'ite':
        if isinstance(a[0], Undefined):
            return a[0]
        return a[1] if a[0] else a[2]
    if op == 'and' and t.sort == 'b':
        if any(x is False for x in a):
            return False
    if op == 'or' and t.sort == 'b':
        if any(x is True for x in a):
            return True
    for v in a:
        if isinstance(v, Undefined):
            return v
    try:
        return _ev1(t, op, a, env)
    except Undefined as e:
        return e


def _ev1(t, op, a, env):
    n = t.sort
    if op == 'c':
        if n == 'f':
            v = tm.fval(t)
            if math.isnan(v):
                raise Undefined('nan')
            return mpf(v)
        if n == 'b':
            return bool(t.args[0])
        return t.args[0]
    if op == 'rat':
        return mpf(t.args[0].numerator) / t.args[0].denominator
    if op == 'const':
        return CONST[t.args[0]] if mp.mp.dps <= 40 else CONSTF[t.args[0]]()
    if op == 'var':
        return env[t.args[0]]
    if op == 'ipow':
        if a[0] == 0 and t.args[1] < 0:
            raise Undefined('0**-')
        return a[0] ** t.args[1]
    if op == 'powi':
        k = tm.sgn(a[1], t.args[1].sort)
        if a[0] == 0 and k < 0:
            raise Undefined('0**-')
        return a[0] ** k
    if n == 'f' and op in FN:
        return FN[op](*a)
    if op == 'flt': return bool(a[0] < a[1])
    if op == 'fle': return bool(a[0] <= a[1])
    if op == 'feq': return bool(a[0] == a[1])
    if op == 'uno': return False
    if op == 'fpclass':
        x, m = a[0], t.args[1]
        if mp.isinf(x):
            return bool(m & (4 if x < 0 else 0x200))
        if x == 0:
            return bool(m & 0x60)
        return bool(m & (8 if x < 0 else 0x100))
    if op == 'not': return not a[0]
    if op == 'and' and n == 'b': return a[0] and a[1]
    if op == 'or' and n == 'b': return a[0] or a[1]
    if op == 'xor' and n == 'b': return a[0] != a[1]
    if op == 'eq': return a[0] == a[1]
    if op == 'ult': return a[0] < a[1]
    if op == 'slt':
        w = t.args[0].sort
        return tm.sgn(a[0], w) < tm.sgn(a[1], w)
    if op == 'uitofp': return mpf(a[0])
    if op == 'sitofp': return mpf(tm.sgn(a[0], t.args[0].sort))
    if op in ('fptoui', 'fptosi', 'fptouisat', 'fptosisat'):
        v = int(a[0])
        if op.startswith('fptoui'):
            v = max(0, min(v, (1 << n) - 1))
        return v & ((1 << n) - 1)
    if op == 'zextb': return 1 if a[0] else 0
    if op == 'zext': return a[0]
    if op == 'sext': return tm.sgn(a[0], t.args[0].sort) & ((1 << n) - 1)
    if op == 'trunc': return a[0] & ((1 << n) - 1)
    if op == 'tab':
        e = t.args[0][a[0]]
        return mpf(struct.unpack('<d', struct.pack('<Q', e))[0]) if n == 'f' else e
    if op == 'umulo': return a[0] * a[1] >= 1 << t.args[0].sort
    if op == 'uaddo': return a[0] + a[1] >= 1 << t.args[0].sort
    if op in ('smulo', 'saddo', 'ssubo'):
        w = t.args[0].sort
        x, y = tm.sgn(a[0], w), tm.sgn(a[1], w)
        r = {'smulo': x * y, 'saddo': x + y, 'ssubo': x - y}[op]
        return not -(1 << (w - 1)) <= r < 1 << (w - 1)
    if isinstance(n, int) and len(a) == 2:
        r = tm.ibin(op, tm.bv(a[0], n), tm.bv(a[1], n))
        if r.op == 'c':
            return r.args[0]
        raise Undefined(op)
    if op == 'frem':
        if a[1] == 0:
            raise Undefined('frem')
        q = a[0] / a[1]
        q = mp.floor(q) if q >= 0 else mp.ceil(q)
        return a[0] - q * a[1]
    raise Undefined('no value for ' + op)


# ------------------------------------------------------------- literal recognition
_lit = {}
_PI = Fraction(str(mp.nstr(mp.pi, 38)))


def _small(fr):
    return fr.denominator <= 4096 and abs(fr.numerator) <= 1 << 40


def _cands():
    """(value, key): key = (pi exponent, extra) with extra in
    '', sqrt ints, or log combination"""
    out = []
    for k in range(-6, 7):
        if k:
            out.append((CONST['pi'] ** k, ('mul', Fraction(k), 1)))
    for k in (-3, -1, 1, 3):
        for r in (1, 2, 3, 5, 6):
            out.append((CONST['pi'] ** (mpf(k) / 2) * mp.sqrt(r), ('mul', Fraction(k, 2), r)))
    for r in (2, 3, 5, 6, 7, 10):
        out.append((mp.sqrt(r), ('mul', Fraction(0), r)))
        out.append((mp.sqrt(r) * CONST['pi'], ('mul', Fraction(1), r)))
        out.append((mp.sqrt(r) / CONST['pi'], ('mul', Fraction(-1), r)))
    return out


CANDS = _cands()
SPECIAL = [
    (CONST['zeta3'] * mp.sqrt(6) / mp.pi ** 3, lambda: tm.mk('fmul', (tm.mk('fmul', (tm.const('zeta3'), tm.mk('sqrt', (tm.rat(6),), 'f')), 'f'), tm.mk('pow', (tm.const('pi'), tm.rat(-3)), 'f')), 'f')),
    (mp.log(mp.log(2)), lambda: tm.mk('log', (tm.mk('log', (tm.rat(2),), 'f'),), 'f')),
]
NAMED = [(CONST['euler'], 'euler'), (CONST['zeta3'], 'zeta3'), (CONST['catalan'], 'catalan')]


def _ratio(x, K, tol):
    q = x / K
    fr = Fraction(int(mp.nint(q * 10 ** 30)), 10 ** 30).limit_denominator(2000)
    if fr != 0 and abs(fr.numerator) <= 20000:
        v = mpf(fr.numerator) / fr.denominator
        if abs(v - q) <= tol * abs(q):
            return fr
    return None


def recognise(bits):
    """double -> T built from rat/const/sqrt/log, or None if it is best taken exactly"""
    if bits in _lit:
        return _lit[bits]
    r = _recognise(bits)
    _lit[bits] = r
    return r


_LF = []


def _recognise(bits):
    v = struct.unpack('<d', struct.pack('<Q', bits))[0]
    fr = Fraction(v)
    if _small(fr):
        return tm.rat(fr)
    sm = fr.limit_denominator(100000)
    if sm != 0 and float(sm) == v:
        return tm.rat(sm)
    x = mpf(v)
    tol = mpf(2) ** -50
    if v < -1.5:
        r = recognise(bits ^ (1 << 63))
        return None if r is None else tm.rat(-r.args[0]) if r.op == 'rat' else tm.mk('fneg', (r,), 'f')
    # tabulated log-factorials, given to 15 or so digits
    if v > 1.5 and not _LF:
        acc = mpf(0)
        for n in range(2, 255):
            acc += mp.log(n)
            _LF.append(acc)
    if v > 1.5:
        for i, L in enumerate(_LF):
            if abs(L - x) <= 2e-15 * L:
                pf = {}
                for m in range(2, i + 3):
                    d = 2
                    while m > 1:
                        while m % d == 0:
                            pf[d] = pf.get(d, 0) + 1
                            m //= d
                        d += 1
                t = None
                for q, e in sorted(pf.items()):
                    u = tm.mk('fmul', (tm.rat(e), tm.mk('log', (tm.rat(q),), 'f')), 'f')
                    t = u if t is None else tm.mk('fadd', (t, u), 'f')
                return t
    # decimal literals
    s = repr(v)
    d = Fraction(s)
    if len(s.replace('.', '').replace('-', '').split('e')[0].strip('0')) <= 12:
        return tm.rat(d)
    if abs(v) < 1e-5:
        return None             # tiny (machine epsilon and the like): taken exactly
    sm = fr.limit_denominator(20000)
    if sm != 0 and abs(mpf(sm.numerator) / sm.denominator - x) <= tol * abs(x):
        return tm.rat(sm)
    for K, key in CANDS:
        q = _ratio(x, K, tol)
        if q is not None:
            t = tm.rat(q)
            if key[1]:
                t = tm.mk('fmul', (t, tm.mk('pow', (tm.const('pi'), tm.rat(key[1])), 'f')), 'f')
            if key[2] != 1:
                t = tm.mk('fmul', (t, tm.mk('sqrt', (tm.rat(key[2]),), 'f')), 'f')
            return t
    e = mp.e
    for k in (1, -1, 2):
        q = _ratio(x, e ** k, tol)
        if q is not None:
            return tm.mk('fmul', (tm.rat(q), tm.mk('exp', (tm.rat(k),), 'f')), 'f')
        q = _ratio(x, e ** k * mp.pi, tol)
        if q is not None:
            return tm.mk('fmul', (tm.mk('fmul', (tm.rat(q), tm.const('pi')), 'f'), tm.mk('exp', (tm.rat(k),), 'f')), 'f')
    for K, nm in NAMED:
        q = _ratio(x, K, tol)
        if q is not None:
            return tm.mk('fmul', (tm.rat(q), tm.const(nm)), 'f')
    for K, mkt in SPECIAL:
        q = _ratio(x, K, tol)
        if q is not None:
            return tm.mk('fmul', (tm.rat(q), mkt()), 'f')
    # logs: a*ln2 + b*lnpi + c, or ln(n)
    for n in range(2, 200):
        q = _ratio(x, mp.log(n), tol)
        if q is not None and q.denominator <= 12 and abs(q.numerator) <= 12:
            return tm.mk('fmul', (tm.rat(q), tm.mk('log', (tm.rat(n),), 'f')), 'f')
    half = [Fraction(k, 2) for k in range(-4, 5)]
    for b in half:
        for a in [Fraction(k, 2) for k in range(-8, 9)]:
            for named in (None, 'euler'):
                for cs in ([Fraction(0)] if named is None else [Fraction(1), Fraction(-1)]):
                    rest = x - (mpf(a.numerator) / a.denominator) * CONST['ln2'] - (mpf(b.numerator) / b.denominator) * CONST['lnpi']
                    if named:
                        rest -= int(cs) * CONST['euler']
                    c = Fraction(int(mp.nint(rest * 12)), 12)
                    if abs(rest - mpf(c.numerator) / c.denominator) <= tol * max(1, abs(x)) * 2 and abs(c) <= 12:
                        t = tm.rat(c)
                        if a:
                            t = tm.mk('fadd', (t, tm.mk('fmul', (tm.rat(a), tm.mk('log', (tm.rat(2),), 'f')), 'f')), 'f')
                        if b:
                            t = tm.mk('fadd', (t, tm.mk('fmul', (tm.rat(b), tm.mk('log', (tm.const('pi'),), 'f')), 'f')), 'f')
                        if named:
                            t = tm.mk('fadd', (t, tm.mk('fmul', (tm.rat(cs), tm.const('euler')), 'f')), 'f')
                        return t
    # b + c pi^k, and square roots of those
    r = _pi_affine(x)
    if r is not None:
        return r
    if v > 0:
        r = _pi_affine(x * x)
        if r is not None:
            return tm.mk('sqrt', (r,), 'f')
    for K, mkt in _special2():
        q = _ratio(x, K, tol)
        if q is not None and q.denominator <= 12 and abs(q.numerator) <= 12:
            return tm.mk('fmul', (tm.rat(q), mkt()), 'f')
    # k/2 * ln(a pi^b) + c
    for k2 in range(1, 41):
        for b in (1, -1, 2):
            for n in range(1, 17):
                rest = x - mpf(k2) / 2 * (mp.log(n) + b * CONST['lnpi'])
                c = Fraction(int(mp.nint(rest * 2)), 2)
                if abs(c) <= 40 and abs(rest - mpf(c.numerator) / c.denominator) <= tol * max(1, abs(x)):
                    t = tm.mk('log', (tm.mk('fmul', (tm.rat(n), tm.mk('pow', (tm.const('pi'), tm.rat(b)), 'f')), 'f'),), 'f')
                    return tm.mk('fadd', (tm.rat(c), tm.mk('fmul', (tm.rat(Fraction(k2, 2)), t), 'f')), 'f')
    for n in range(2, 20):
        for d in range(2, 20):
            if abs(x - mp.log(mpf(n) / d)) <= tol * abs(x):
                return tm.mk('log', (tm.rat(Fraction(n, d)),), 'f')
    return None


def _pi_affine(x):
    for k in (1, 2, -1, -2, 4, -4):
        for d in (1, 2, 3, 4, 5, 6, 8, 12):
            for n in range(-24, 25):
                if n == 0:
                    continue
                rest = x - mpf(n) / d * CONST['pi'] ** k
                c = Fraction(int(mp.nint(rest * 12)), 12)
                if c and abs(c) <= 24 and abs(rest - mpf(c.numerator) / c.denominator) <= mpf(2) ** -52 * max(abs(x), abs(rest), mpf('0.1')) * 2:
                    return tm.mk('fadd', (tm.rat(c), tm.mk('fmul', (tm.rat(Fraction(n, d)), tm.mk('pow', (tm.const('pi'), tm.rat(k)), 'f')), 'f')), 'f')
    return None


_SP2 = []


def _special2():
    if not _SP2:
        P = tm.const('pi')
        R = tm.rat
        def pw(a, b): return tm.mk('pow', (a, R(b)), 'f')
        for t in (6 * (90 - pw(P, 4)) / (5 * pw(pw(P, 2) - 6, 2)), 2 * tm.mk('sqrt', (P,), 'f') * (P - 3) / pw(4 - P, Fraction(3, 2)),
                  (6 * pw(P, 2) - 24 * P + 16) / pw(4 - P, 2)):
            _SP2.append((evaluate([t], {})[0], lambda t=t: t))
            u = t + 3
            _SP2.append((evaluate([u], {})[0], lambda u=u: u))
            u = 3 - t
            _SP2.append((evaluate([u], {})[0], lambda u=u: u))
    return _SP2
