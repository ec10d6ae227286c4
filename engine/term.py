"""Hash-consed terms shared by the symbolic executor, the oracles and the solver
back ends. Sorts: int width n (bit vector), 'b' (bool), 'f' (double)."""
import math
import struct
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id')

    def __repr__(self):
        return show(self)

    # operator sugar for writing oracles (doubles only)
    def __add__(a, b): return fbin('fadd', a, lift(b))
    def __radd__(a, b): return fbin('fadd', lift(b), a)
    def __sub__(a, b): return fbin('fsub', a, lift(b))
    def __rsub__(a, b): return fbin('fsub', lift(b), a)
    def __mul__(a, b): return fbin('fmul', a, lift(b))
    def __rmul__(a, b): return fbin('fmul', lift(b), a)
    def __truediv__(a, b): return fbin('fdiv', a, lift(b))
    def __rtruediv__(a, b): return fbin('fdiv', lift(b), a)
    def __neg__(a): return mk('fneg', (a,), 'f')
    def __pow__(a, b):
        if isinstance(b, int):
            return mk('ipow', (a, b), 'f')
        return mk('pow', (a, lift(b)), 'f')
    def __lt__(a, b): return fcmp('olt', a, lift(b))
    def __le__(a, b): return fcmp('ole', a, lift(b))
    def __gt__(a, b): return fcmp('ogt', a, lift(b))
    def __ge__(a, b): return fcmp('oge', a, lift(b))


def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else ('#', a) for a in args), sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, tuple(args), sort
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


def reset():
    _tab.clear()


# ---- constants
def bv(v, n):
    return mk('c', (v & ((1 << n) - 1),), n)


TRUE = None
FALSE = None


def boolc(v):
    return mk('c', (1 if v else 0,), 'b')


def fbits(bits):
    return mk('c', (bits,), 'f')


def f64(x):
    return fbits(struct.unpack('<Q', struct.pack('<d', x))[0])


def fval(t):
    return struct.unpack('<d', struct.pack('<Q', t.args[0]))[0]


def rat(p, q=1):
    """exact rational / named real constant, oracles only"""
    return mk('rat', (Fraction(p, q),), 'f')


def const(name):
    return mk('const', (name,), 'f')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (int, Fraction)):
        return rat(x)
    return f64(x)


def var(name, sort='f'):
    return mk('var', (name,), sort)


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


# ---- floats
def _finite(x):
    return not (math.isnan(x) or math.isinf(x))


def fbin(op, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = fval(a), fval(b)
        if _finite(x) and _finite(y):
            fx, fy = Fraction(x), Fraction(y)
            r = None
            if op == 'fadd':
                r = fx + fy
            elif op == 'fsub':
                r = fx - fy
            elif op == 'fmul':
                r = fx * fy
            elif op == 'fdiv' and fy != 0:
                r = fx / fy
            if r is not None and r != 0:
                try:
                    f = float(r)
                    if _finite(f) and Fraction(f) == r:
                        return f64(f)
                except OverflowError:
                    pass
    return mk(op, (a, b), 'f')


def fneg(a):
    if a.op == 'c':
        return fbits(a.args[0] ^ (1 << 63))
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), 'f')


def fun(name, *args):
    return mk(name, tuple(lift(a) for a in args), 'f')


def fcmp(pred, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = fval(a), fval(b)
        un = math.isnan(x) or math.isnan(y)
        base = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
        if pred == 'ord':
            return boolc(not un)
        if pred == 'uno':
            return boolc(un)
        if pred == 'true':
            return boolc(True)
        if pred == 'false':
            return boolc(False)
        if pred[0] == 'o':
            return boolc((not un) and base[pred[1:]])
        return boolc(un or base[pred[1:]])
    if pred == 'true':
        return boolc(True)
    if pred == 'false':
        return boolc(False)
    if pred == 'ord':
        return bnot(fcmp('uno', a, b))
    if pred[0] == 'u' and pred != 'uno':
        inv = {'eq': 'one', 'ne': 'oeq', 'lt': 'oge', 'le': 'ogt', 'gt': 'ole', 'ge': 'olt'}[pred[1:]]
        return bnot(fcmp(inv, a, b))
    if pred == 'ogt':
        return mk('flt', (b, a), 'b')
    if pred == 'oge':
        return mk('fle', (b, a), 'b')
    if pred == 'olt':
        return mk('flt', (a, b), 'b')
    if pred == 'ole':
        return mk('fle', (a, b), 'b')
    if pred == 'oeq':
        return mk('feq', tuple(sorted((a, b), key=lambda t: t.id)), 'b')
    if pred == 'one':
        # ordered and not equal
        return band(bnot(mk('uno', (a, b), 'b')), bnot(mk('feq', tuple(sorted((a, b), key=lambda t: t.id)), 'b')))
    if pred == 'uno':
        for (p, q) in ((a, b), (b, a)):
            if q.op == 'c' and not math.isnan(fval(q)):
                if p.op == 'c':
                    return boolc(math.isnan(fval(p)))
                return mk('uno', (p, p), 'b')
        return mk('uno', (a, b), 'b')
    raise ValueError(pred)


# ---- booleans
def bnot(a):
    if a.op == 'c':
        return boolc(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'b')


def band(a, b):
    if a.op == 'c':
        return b if a.args[0] else a
    if b.op == 'c':
        return a if b.args[0] else b
    if a is b:
        return a
    if a is bnot(b):
        return boolc(False)
    return mk('and', (a, b), 'b')


def bor(a, b):
    if a.op == 'c':
        return a if a.args[0] else b
    if b.op == 'c':
        return b if b.args[0] else a
    if a is b:
        return a
    if a is bnot(b):
        return boolc(True)
    return mk('or', (a, b), 'b')


def ands(xs):
    r = boolc(True)
    for x in xs:
        r = band(r, x)
    return r


def ors(xs):
    r = boolc(False)
    for x in xs:
        r = bor(r, x)
    return r


def bxor(a, b):
    if a.op == 'c':
        return bnot(b) if a.args[0] else b
    if b.op == 'c':
        return bnot(a) if b.args[0] else a
    if a is b:
        return boolc(False)
    return mk('xor', (a, b), 'b')


def ite(c, a, b):
    if c.op == 'c':
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == 'b':
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not':
        return mk('ite', (c.args[0], b, a), a.sort)
    return mk('ite', (c, a, b), a.sort)


# ---- ints
def ibin(op, a, b):
    n = a.sort
    if n == 'b':
        if op == 'and':
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        if op in ('xor', 'add', 'sub'):
            return bxor(a, b)
        if op == 'mul':
            return band(a, b)
        raise ValueError(op)
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        sx, sy = sgn(x, n), sgn(y, n)
        if op == 'add': return bv(x + y, n)
        if op == 'sub': return bv(x - y, n)
        if op == 'mul': return bv(x * y, n)
        if op == 'udiv' and y: return bv(x // y, n)
        if op == 'urem' and y: return bv(x % y, n)
        if op == 'sdiv' and y: return bv(int(Fraction(sx, sy).__trunc__()), n)
        if op == 'srem' and y: return bv(sx - sy * Fraction(sx, sy).__trunc__(), n)
        if op == 'shl': return bv(x << y, n) if y < n else bv(0, n)
        if op == 'lshr': return bv(x >> y, n) if y < n else bv(0, n)
        if op == 'ashr': return bv(sx >> min(y, n - 1), n)
        if op == 'and': return bv(x & y, n)
        if op == 'or': return bv(x | y, n)
        if op == 'xor': return bv(x ^ y, n)
        if op == 'umin': return bv(min(x, y), n)
        if op == 'umax': return bv(max(x, y), n)
        if op == 'smin': return bv(min(sx, sy), n)
        if op == 'smax': return bv(max(sx, sy), n)
    if b.op == 'c':
        y = b.args[0]
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and y == 0:
            return a
        if op in ('mul', 'udiv', 'sdiv') and y == 1:
            return a
        if op in ('mul', 'and') and y == 0:
            return b
        if op == 'and' and y == (1 << n) - 1:
            return a
        if op == 'sub':
            return ibin('add', a, bv(-y, n))
        if op == 'add' and a.op == 'add' and a.args[1].op == 'c':
            return ibin('add', a.args[0], bv(a.args[1].args[0] + y, n))
        if op == 'shl' and y < n:
            return ibin('mul', a, bv(1 << y, n))
    if a.op == 'c':
        x = a.args[0]
        if op in ('add', 'or', 'xor') and x == 0:
            return b
        if op == 'mul' and x == 1:
            return b
        if op in ('mul', 'and') and x == 0:
            return a
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            return ibin(op, b, a)
    if a is b:
        if op in ('sub', 'xor'):
            return bv(0, n)
        if op in ('and', 'or', 'umin', 'umax', 'smin', 'smax'):
            return a
    if op == 'sub' and a.op == 'add' and a.args[0] is b:
        return a.args[1]
    return mk(op, (a, b), n)


def icmp(pred, a, b):
    n = a.sort
    if n == 'b':
        if pred == 'eq':
            return bnot(bxor(a, b))
        if pred == 'ne':
            return bxor(a, b)
        if pred == 'ult':
            return band(bnot(a), b)
        if pred == 'ugt':
            return band(a, bnot(b))
        if pred == 'ule':
            return bor(bnot(a), b)
        if pred == 'uge':
            return bor(a, bnot(b))
        # signed i1: true = -1
        return icmp({'slt': 'ugt', 'sgt': 'ult', 'sle': 'uge', 'sge': 'ule'}[pred], a, b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        if pred[0] == 's':
            x, y = sgn(x, n), sgn(y, n)
        return boolc({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[
            pred[1:] if pred not in ('eq', 'ne') else pred])
    if a is b:
        return boolc(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if pred == 'eq':
        # zext / bool simplifications
        for p, q in ((a, b), (b, a)):
            if q.op == 'c' and p.op == 'zextb':
                if q.args[0] == 1:
                    return p.args[0]
                if q.args[0] == 0:
                    return bnot(p.args[0])
                return boolc(False)
            if q.op == 'c' and p.op == 'ite' and p.args[1].op == 'c' and p.args[2].op == 'c':
                l, r = p.args[1].args[0] == q.args[0], p.args[2].args[0] == q.args[0]
                return ite(p.args[0], boolc(l), boolc(r))
        return mk('eq', tuple(sorted((a, b), key=lambda t: t.id)), 'b')
    if pred == 'ne':
        return bnot(icmp('eq', a, b))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return icmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a)
    if pred in ('ule', 'sle'):
        return bnot(icmp({'ule': 'ult', 'sle': 'slt'}[pred], b, a))
    if pred == 'ult' and b.op == 'c' and b.args[0] == 0:
        return boolc(False)
    if pred == 'ult' and b.op == 'c' and b.args[0] == 1:
        return icmp('eq', a, bv(0, n))
    return mk(pred, (a, b), 'b')


def zext(a, n):
    if a.sort == 'b':
        if a.op == 'c':
            return bv(a.args[0], n)
        return mk('zextb', (a,), n)
    if a.sort == n:
        return a
    if a.op == 'c':
        return bv(a.args[0], n)
    if a.op == 'zextb':
        return mk('zextb', a.args, n)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    return mk('zext', (a,), n)


def sext(a, n):
    if a.sort == 'b':
        if a.op == 'c':
            return bv(-a.args[0], n)
        return ite(a, bv(-1, n), bv(0, n))
    if a.sort == n:
        return a
    if a.op == 'c':
        return bv(sgn(a.args[0], a.sort), n)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return mk('sext', (a,), n)


def trunc(a, n):
    """n may be 1 -> bool"""
    if a.sort == n:
        return a
    if n == 1:
        if a.op == 'c':
            return boolc(a.args[0] & 1)
        if a.op == 'zextb':
            return a.args[0]
        if a.op == 'ite':
            return ite(a.args[0], trunc(a.args[1], 1), trunc(a.args[2], 1))
        return icmp('eq', ibin('and', a, bv(1, a.sort)), bv(1, a.sort))
    if a.op == 'c':
        return bv(a.args[0], n)
    if a.op == 'zextb':
        return mk('zextb', a.args, n)
    if a.op in ('zext', 'sext'):
        if a.args[0].sort == n:
            return a.args[0]
        if a.args[0].sort > n:
            return trunc(a.args[0], n)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], trunc(a.args[1], n), trunc(a.args[2], n))
    return mk('trunc', (a,), n)


def mulovf(signed, a, b):
    n = a.sort
    if a.op == 'c' and b.op == 'c':
        if signed:
            r = sgn(a.args[0], n) * sgn(b.args[0], n)
            return boolc(not (-(1 << (n - 1)) <= r < (1 << (n - 1))))
        return boolc(a.args[0] * b.args[0] >= (1 << n))
    for p, q in ((a, b), (b, a)):
        if q.op == 'c' and q.args[0] in (0, 1):
            return boolc(False)
    return mk('smulo' if signed else 'umulo', (a, b), 'b')


def addovf(signed, a, b):
    n = a.sort
    if a.op == 'c' and b.op == 'c':
        if signed:
            r = sgn(a.args[0], n) + sgn(b.args[0], n)
            return boolc(not (-(1 << (n - 1)) <= r < (1 << (n - 1))))
        return boolc(a.args[0] + b.args[0] >= (1 << n))
    return mk('saddo' if signed else 'uaddo', (a, b), 'b')


def subovf(signed, a, b):
    n = a.sort
    if a.op == 'c' and b.op == 'c':
        if signed:
            r = sgn(a.args[0], n) - sgn(b.args[0], n)
            return boolc(not (-(1 << (n - 1)) <= r < (1 << (n - 1))))
        return boolc(a.args[0] < b.args[0])
    if not signed:
        return icmp('ult', a, b)
    return mk('ssubo', (a, b), 'b')


def itof(signed, a):
    if a.sort == 'b':
        return ite(a, f64(-1.0 if signed else 1.0), f64(0.0))
    if a.op == 'c':
        v = sgn(a.args[0], a.sort) if signed else a.args[0]
        return f64(float(v))
    if a.op == 'zextb':
        return ite(a.args[0], f64(1.0), f64(0.0))
    return mk('sitofp' if signed else 'uitofp', (a,), 'f')


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t.op == 'c':
        if t.sort == 'f':
            return repr(fval(t))
        if t.sort == 'b':
            return 'true' if t.args[0] else 'false'
        return str(t.args[0])
    if t.op in ('var', 'rat', 'const'):
        return str(t.args[0])
    if d > 12:
        return '...'
    return '(%s %s)' % (t.op, ' '.join(show(a, d + 1) for a in t.args))


def walk(roots):
    """all subterms, children first"""
    seen, out = set(), []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if not isinstance(t, T):
            continue
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if isinstance(a, T):
                st.append((a, False))
    return out


def subst(roots, m):
    """substitute var terms (by id) in terms; m: {id: T}"""
    memo = dict(m)
    for t in walk(roots):
        if t.id in memo:
            continue
        if not t.args or not any(isinstance(a, T) for a in t.args):
            memo[t.id] = t
            continue
        na = tuple(memo[a.id] if isinstance(a, T) else a for a in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, na)
    return [memo[r.id] for r in roots]


def rebuild(t, a):
    op = t.op
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return fbin(op, *a)
    if op == 'ite':
        return ite(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'and' and t.sort == 'b':
        return band(*a)
    if op == 'or' and t.sort == 'b':
        return bor(*a)
    if op == 'flt':
        return fcmp('olt', *a)
    if op == 'fle':
        return fcmp('ole', *a)
    if op == 'feq':
        return fcmp('oeq', *a)
    if op in ('uitofp', 'sitofp'):
        return itof(op == 'sitofp', *a)
    if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr', 'shl', 'umin', 'umax', 'smin',
              'smax') or (op in ('and', 'or', 'xor') and t.sort != 'b'):
        return ibin(op, *a)
    if op in ('eq', 'ult', 'slt'):
        return icmp(op, *a)
    if op == 'zext':
        return zext(a[0], t.sort)
    if op == 'sext':
        return sext(a[0], t.sort)
    if op == 'trunc':
        return trunc(a[0], t.sort)
    if op in ('umulo', 'smulo'):
        return mulovf(op[0] == 's', *a)
    if op in ('uaddo', 'saddo'):
        return addovf(op[0] == 's', *a)
    return mk(op, a, t.sort)
