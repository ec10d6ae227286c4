"""Real-arithmetic reading of terms: a canonical form over algebraically
independent atoms, and the translation of conditions and goals to z3.

An expression is {monomial: Fraction}; a monomial is a sorted tuple of
(atom id, exponent), exponents rational. Atoms: variables, constants, roots of
primes, exp(monomial), log(atom), irreducible polynomials (in denominators,
under roots or logs) and opaque special functions in a normalised argument."""
import itertools
import math
import time
from fractions import Fraction as Fr

import sympy
import z3
from sympy.polys.rings import ring
from sympy import QQ

import num
import term as tm
from term import T


def factors(n):
    """Prime factors of n; numbers whose cofactor after small primes is large
    are refused rather than factored."""
    r = {}
    for p in sympy.primerange(2, 2000):
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
    if n > 10 ** 14:
        raise TooHard('big number')
    for p, e in (sympy.factorint(n).items() if n > 1 else ()):
        r[int(p)] = r.get(int(p), 0) + e
    return r


class NeedSplit(Exception):
    """the sign of an expression matters and is not decided by the domain"""

    def __init__(self, t):
        self.t = t       # T, split on t > 0


class Undef(Exception):
    """division by zero / log of non-positive for every input of the case"""


class TooHard(Exception):
    pass


ONE = ()
MAXTERMS = 4000


def eadd(a, b, k=Fr(1)):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def escale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class Atom:
    __slots__ = ('id', 'kind', 'data', 'sign', 't', 'key')


_factor_cache = {}


class Norm:
    """normal forms under a list of assumptions (boolean terms)"""

    def __init__(self, assume=(), stats=None, timeout=4000):
        self.atoms = []
        self.keys = {}
        self.memo = {}
        self.stats = stats
        self.timeout = timeout
        self.zcache = {}
        self.signs = {}
        self.assume = []
        self.zassume = []
        self.extra = []
        self.obl = []          # definedness obligations: (kind, E)
        self.dead = False
        self.intvars = {}
        self.int_memo = {}
        for c in assume:
            self.add_assume(c)

    # ---------------------------------------------------------- atoms
    def atom(self, kind, data, key, t, sign=0):
        k = (kind, key)
        a = self.keys.get(k)
        if a is None:
            a = Atom()
            a.id, a.kind, a.data, a.t, a.sign, a.key = len(self.atoms), kind, data, t, sign, key
            self.atoms.append(a)
            self.keys[k] = a
        return a

    def mono(self, a, e=Fr(1)):
        return {((a.id, Fr(e)),): Fr(1)}

    def const(self, q):
        q = Fr(q)
        return {ONE: q} if q else {}

    def key(self, E):
        return frozenset(E.items())

    def is_const(self, E):
        if not E:
            return Fr(0)
        if len(E) == 1 and ONE in E:
            return E[ONE]
        return None

    def var(self, name, t):
        return self.mono(self.atom('var', name, name, t))

    def named(self, name):
        return self.mono(self.atom('const', name, name, tm.const(name), 1))

    # ---------------------------------------------------------- products
    def fixmono(self, m, c):
        """prime atoms carry exponents in [0,1); -A to a whole power is written with A"""
        for a, e in m:
            if self.atoms[a].kind == 'neg' and e.denominator == 1:
                r = dict(x for x in m if x[0] != a)
                b = self.atoms[a].data
                r[b] = r.get(b, Fr(0)) + e
                return self.fixmono(tuple(sorted((x, y) for x, y in r.items() if y)), -c if e.numerator % 2 else c)
        out = []
        for a, e in m:
            A = self.atoms[a]
            if A.kind == 'prime' and not (0 <= e < 1):
                k = e.numerator // e.denominator
                c *= Fr(A.data) ** k
                e -= k
            if e:
                out.append((a, e))
        return tuple(out), c

    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > 40 * MAXTERMS:
            raise TooHard('product too large')
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                c = c1 * c2
                if any(self.atoms[x].kind in ('prime', 'neg') for x, _ in m):
                    m, c = self.fixmono(m, c)
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > MAXTERMS:
            raise TooHard('too many terms')
        return self.trig(r)

    def trig(self, E):
        """sin(u)^2 -> 1 - cos(u)^2"""
        while True:
            hit = None
            for m in E:
                for a, e in m:
                    if self.atoms[a].kind == 'sin' and e >= 2:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if not hit:
                return E
            m, a, e = hit
            c = E[m]
            rest = tuple((x, y) for x, y in m if x != a)
            if e - 2:
                rest = mmul(rest, ((a, e - 2),))
            co = self.keys[('cos', self.atoms[a].key)]
            E = dict(E)
            del E[m]
            E = eadd(E, {rest: c})
            E = eadd(E, {mmul(rest, ((co.id, Fr(2)),)): -c})

    def add(self, a, b, k=Fr(1)):
        return eadd(a, b, k)

    # ---------------------------------------------------------- canonical rational form
    def has_poly(self, E):
        return any(self.atoms[a].kind == 'poly' for m in E for a, _ in m)

    def together(self, E):
        """-> (N, D): N expanded, without integer powers of poly atoms; D = {poly atom id: int>0}"""
        low = {}
        for m in E:
            for a, e in m:
                if self.atoms[a].kind == 'poly':
                    f = math.floor(e)
                    if f < 0:
                        low[a] = min(low.get(a, 0), f)
        N = {}
        for m, c in E.items():
            acc = None
            rest = []
            ex = {a: 0 for a in low}
            for a, e in m:
                if self.atoms[a].kind == 'poly':
                    f = math.floor(e)
                    ex[a] = f
                    if e - f:
                        rest.append((a, e - f))
                else:
                    rest.append((a, e))
            P = {tuple(sorted(rest)): c}
            for a, f in ex.items():
                k = f - low.get(a, 0)
                for _ in range(k):
                    P = self.mul(P, self.atoms[a].data)
            N = eadd(N, P)
        # multiplying fractional parts may have produced new integer powers
        if any(self.atoms[a].kind == 'poly' and e >= 1 for m in N for a, e in m):
            N, D2 = self.together(N)
        return N, {a: -f for a, f in low.items()}

    def canon(self, E):
        if len(E) <= 1 or not self.has_poly(E):
            if len(E) == 1:
                return E
            return E
        N, D = self.together(E)
        if not N:
            return {}
        if D:
            # cancel
            c, fac = self.factor(N)
            pos = {a: e for a, e in fac.items() if self.atoms[a].kind == 'poly'}
            common = [a for a in D if a in pos and pos[a] >= 1]
            if common:
                for a in common:
                    k = min(Fr(D[a]), Fr(math.floor(pos[a])))
                    D[a] -= int(k)
                    fac[a] -= k
                R = {ONE: c}
                for a, e in fac.items():
                    if not e:
                        continue
                    if self.atoms[a].kind == 'poly' and e >= 1:
                        f = math.floor(e)
                        for _ in range(f):
                            R = self.mul(R, self.atoms[a].data)
                        e -= f
                    if e:
                        R = self.mul(R, {((a, Fr(e)),): Fr(1)})
                N = R
        d = tuple(sorted((a, Fr(-e)) for a, e in D.items() if e))
        if not d:
            return N
        return {mmul(m, d): c for m, c in N.items()}

    def iszero(self, E):
        return not self.together(E)[0] if E else True

    # ---------------------------------------------------------- factorisation
    def factor(self, E):
        """E (no negative poly powers needed) -> (coefficient, {atom: exponent})"""
        if not E:
            raise Undef('zero factor')
        if self.has_poly(E) and len(E) > 1:
            N, D = self.together(E)
            if not N:
                raise Undef('zero factor')
            c, f = self.factor(N) if self.frac_only(N) else self._factor(N)
            for a, k in D.items():
                f[a] = f.get(a, 0) - k
            return c, {a: e for a, e in f.items() if e}
        return self._factor(E)

    def frac_only(self, N):
        return False

    def _factor(self, E):
        if len(E) == 1:
            (m, c), = E.items()
            return c, dict(m)
        low = {}
        ms = list(E)
        ids = set(a for m in ms for a, _ in m)
        for a in ids:
            low[a] = min(dict(m).get(a, Fr(0)) for m in ms)
        den = {a: 1 for a in ids}
        for m in ms:
            dm = dict(m)
            for a in ids:
                d = (dm.get(a, Fr(0)) - low[a]).denominator
                den[a] = den[a] * d // math.gcd(den[a], d)
        gens = sorted(a for a in ids)
        terms = {}
        for m, c in E.items():
            d = dict(m)
            k = tuple(int((d.get(a, Fr(0)) - low[a]) * den[a]) for a in gens)
            assert k not in terms
            terms[k] = c
        out = {a: e for a, e in low.items() if e}
        coef, facs = poly_factor(terms, len(gens))
        for f, k in facs:
            P = {}
            for ex, c in f.items():
                m = tuple((a, Fr(x, den[a])) for a, x in zip(gens, ex) if x)
                P[m] = Fr(c)
            P2 = {}
            for m, c in P.items():
                m, c = self.fixmono(m, c)
                v = P2.get(m, 0) + c
                if v: P2[m] = v
                else: P2.pop(m, None)
            P = P2
            if len(P) == 1:
                (m, c), = P.items()
                coef *= c ** k
                for a, e in m:
                    out[a] = out.get(a, 0) + e * k
                continue
            a, s = self.poly_atom(P)
            if s < 0:
                coef *= (-1) ** k
            out[a.id] = out.get(a.id, 0) + k
        return coef, {a: e for a, e in out.items() if e}

    def poly_atom(self, P):
        """irreducible polynomial, primitive. -> (atom, sign) with P = sign*atom"""
        k = self.key(P)
        a = self.keys.get(('poly', k))
        if a is not None:
            return a, 1
        M = {m: -c for m, c in P.items()}
        a = self.keys.get(('poly', self.key(M)))
        if a is not None:
            return a, -1
        s = self.sign_of(P)
        if s < 0:
            P, k = M, self.key(M)
        a = self.atom('poly', P, k, self.to_term(P), 1 if s else 0)
        return a, (-1 if s < 0 else 1)

    # ---------------------------------------------------------- signs
    def sign_of(self, E):
        """1, -1 or 0 (unknown), strict"""
        q = self.is_const(E)
        if q is not None:
            return (q > 0) - (q < 0)
        k = self.key(E)
        if k in self.signs:
            return self.signs[k]
        if all(self.mono_sign(m) for m in E):
            sg = {self.mono_sign(m) * (1 if c > 0 else -1) for m, c in E.items()}
            if len(sg) == 1:
                s = sg.pop()
                self.signs[k] = s
                return s
        z = self.z(E)
        s = 0
        if self.ask(z <= 0) == z3.unsat:
            s = 1
        elif self.ask(z >= 0) == z3.unsat:
            s = -1
        self.signs[k] = s
        return s

    def mono_sign(self, m):
        s = 1
        for a, e in m:
            A = self.atoms[a]
            x = self.atom_sign(A)
            if x == 0:
                if e.denominator == 1 and e.numerator % 2 == 0:
                    continue        # non-negative; treat as unknown strictness
                return 0
            if x < 0:
                if e.denominator != 1:
                    return 0
                if e.numerator % 2:
                    s = -s
        if any(self.atom_sign(self.atoms[a]) == 0 for a, _ in m):
            return 0
        return s

    def atom_sign(self, A):
        if A.sign:
            return A.sign
        if A.kind in ('var', 'fun', 'log', 'cos', 'sin', 'poly'):
            z = self.zatom(A)
            if self.ask(z <= 0) == z3.unsat:
                A.sign = 1
            elif self.ask(z >= 0) == z3.unsat:
                A.sign = -1
        return A.sign

    def ask(self, *conds, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for c in self.zassume:
            s.add(c)
        for c in self.extra:
            s.add(c)
        for c in conds:
            s.add(c)
        t = time.time()
        r = s.check()
        if self.stats is not None:
            self.stats.add(r, time.time() - t)
        self.last = s
        return r

    def facts(self):
        """true statements about exp and log, too costly to assume everywhere"""
        out = []
        es, ls = [], []
        try:
            for A in list(self.atoms):
                if A.kind == 'exp':
                    t = self.z({A.data: Fr(1)})
                    z = self.zatom(A)
                    es.append((t, z))
                    p = z3.RealVal(1)
                    s = z3.RealVal(1)
                    f = 1
                    for k in range(1, 10):
                        p = p * t
                        f *= k
                        s = s + p / f
                        if k > 1:
                            out.append(z3.Implies(t > 0, z > s))
                elif A.kind == 'log' and A.data in self.zcache:
                    ls.append((self.zatom(self.atoms[A.data]), self.zatom(A)))
        except TooHard:
            return []
        for (t, z), (u, w) in itertools.combinations(es[:6], 2):
            out.append((t <= u) == (z <= w))
        for (t, z), (u, w) in itertools.combinations(ls[:6], 2):
            out.append(z3.Implies(z3.And(t > 0, u > 0), (t <= u) == (z <= w)))
        return out

    def same_up_to_constants(self, x, y):
        """are two normal forms equal when every constant coefficient is compared as a
        number, to the accuracy of a rounded double"""
        parts = {}
        for E, sg in ((x, 1), (y, -1)):
            for m, c in E.items():
                var, v = [], num.mpf(c.numerator) / c.denominator * sg
                for a, e in m:
                    t = self.atoms[a].t
                    if any(s.op == 'var' for s in tm.walk([t])):
                        var.append((a, e))
                    else:
                        try:
                            b = num.evaluate([t], {})[0]
                            v *= num.mp.power(b, num.mpf(e.numerator) / e.denominator)
                        except num.Undefined:
                            return False
                k = tuple(var)
                s, mag, n = parts.get(k, (num.mpf(0), num.mpf(0), 0))
                parts[k] = (s + v, mag + abs(v), n + 1)
        return all(n > 1 and abs(s) <= num.mpf(2) ** -49 * mag for s, mag, n in parts.values() if mag)

    # ---------------------------------------------------------- z3
    def zatom(self, A):
        z = self.zcache.get(A.id)
        if z is not None:
            return z
        z = z3.Real('%s!%d' % (A.kind if A.kind != 'var' else A.data, A.id))
        self.zcache[A.id] = z
        k = A.kind
        if k == 'var':
            if A.data in self.intvars:
                zi = z3.Int('i!' + A.data)
                self.extra.append(z == z3.ToReal(zi))
        elif k == 'const':
            v = num.CONST[A.data]
            lo = Fr(str(num.mp.nstr(v, 25, strip_zeros=False))) if v < 1e6 else None
            d = Fr(1, 10 ** 20)
            self.extra += [z > z3.Q(*_nd(lo - d)), z < z3.Q(*_nd(lo + d))]
        elif k == 'prime':
            v = Fr(A.data)
            self.extra.append(z == z3.RealVal(str(A.data)))
        elif k == 'exp':
            self.extra.append(z > 0)
            try:
                e = self.z({A.data: Fr(1)})
                self.extra += [z3.Implies(e <= 0, z <= 1), z3.Implies(e >= 0, z >= 1 + e),
                               z3.Implies(e < 0, z < 1), z >= 1 + e]
            except TooHard:
                pass
        elif k == 'log':
            a = self.atoms[A.data]
            if a.kind == 'prime':
                v = num.mp.log(a.data)
                lo = Fr(str(num.mp.nstr(v, 25)))
                d = Fr(1, 10 ** 20)
                self.extra += [z > z3.Q(*_nd(lo - d)), z < z3.Q(*_nd(lo + d))]
            else:
                y = self.zatom(a)
                self.extra += [z3.Implies(y > 0, z <= y - 1), z3.Implies(y > 1, z > 0),
                               z3.Implies(z3.And(y > 0, y < 1), z < 0)]
        elif k == 'poly':
            self.extra.append(z == self.z(A.data))
        elif k in ('sin', 'cos'):
            self.extra += [z <= 1, z >= -1]
        elif k == 'fun':
            nm = A.data[0]
            if nm in ('igam', 'incbet'):
                self.extra += [z >= 0, z <= 1]
            elif nm == 'erf':
                x = self.z(A.data[1][0])
                self.extra += [z < 1, z > -1, z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0),
                               z3.Implies(x == 0, z == 0)]
            elif nm == 'atan':
                x = self.z(A.data[1][0])
                self.extra += [z < z3.Q(157079633, 10 ** 8), z > -z3.Q(157079633, 10 ** 8),
                               z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0), z3.Implies(x == 0, z == 0)]
                pi = self.named('pi')
                p = self.z(pi)
                self.extra += [z < p / 2, z > -p / 2]
            elif nm == 'asin':
                p = self.z(self.named('pi'))
                x = self.z(A.data[1][0])
                self.extra += [z <= p / 2, z >= -p / 2, z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0)]
            elif nm == 'gamma':
                x = self.z(A.data[1][0])
                self.extra.append(z3.Implies(x > 0, z > 0))
            elif nm == 'floor':
                x = self.z(A.data[1][0])
                zi = z3.Int('fl!%d' % A.id)
                self.extra += [z == z3.ToReal(zi), z <= x, x < z + 1]
        return z

    def zpow(self, A, e):
        z = self.zatom(A)
        if e.denominator != 1:
            k = ('root', A.id, e.denominator)
            r = self.zcache.get(k)
            if r is None:
                r = z3.Real('root%d!%d' % (e.denominator, A.id))
                self.zcache[k] = r
                if e.denominator > 24:      # a fine root: only its order is used
                    self.extra += [r >= 0, (r > 0) == (z > 0), (r >= 1) == (z >= 1), (r > 1) == (z > 1)]
                else:
                    p = r
                    for _ in range(e.denominator - 1):
                        p = p * r
                    self.extra += [r >= 0, p == z]
            z, e = r, Fr(e.numerator)
        n = e.numerator
        if abs(n) > 12:
            raise TooHard('power')
        p = z
        for _ in range(abs(n) - 1):
            p = p * z
        if n < 0:
            k = ('inv', z.get_id(), n)
            i = self.zcache.get(k)
            if i is None:
                i = z3.Real('inv!%d' % len(self.zcache))
                self.zcache[k] = i
                self.extra.append(i * p == 1)
            return i
        return p

    def z(self, E):
        if not E:
            return z3.RealVal(0)
        s = None
        for m, c in sorted(E.items(), key=lambda t: t[0]):
            p = z3.Q(*_nd(c))
            for a, e in m:
                p = p * self.zpow(self.atoms[a], e)
            s = p if s is None else s + p
        return s

    def zcmp(self, op, E):
        """E op 0 with denominators cleared when their sign is known"""
        N, D = self.together(E)
        neg = {}
        for m in N:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        s = 1
        ok = True
        for a, k in list(D.items()):
            sg = self.atom_sign(self.atoms[a])
            if sg == 0 and k % 2 == 0:
                continue
            if sg == 0:
                ok = False
            elif sg < 0 and k % 2:
                s = -s
        mult = []
        for a, e in neg.items():
            sg = self.atom_sign(self.atoms[a])
            if sg == 0 or (sg < 0 and e.denominator != 1):
                ok = False
                continue
            mult.append((a, -e))
            if sg < 0 and e.numerator % 2:
                s = -s
        if ok:
            mm = tuple(sorted(mult))
            N = {mmul(m, mm): c for m, c in N.items()}
            z = self.z(N) * s
        else:
            z = self.z(E)
        return {'<': z < 0, '<=': z <= 0, '==': z == 0, '!=': z != 0, '>': z > 0, '>=': z >= 0}[op]

    # ---------------------------------------------------------- functions
    def powq(self, E, q):
        q = Fr(q)
        if q == 0:
            return self.const(1)
        if q == 1:
            return E
        if not E:
            if q > 0:
                return {}
            raise Undef('division by zero')
        if q.denominator == 1 and q > 0 and (len(E) == 1 or q <= 8):
            if len(E) == 1:
                (m, c), = E.items()
                m2, c2 = self.fixmono(tuple((a, e * q) for a, e in m), c ** int(q))
                return self.trig({m2: c2})
            R = E
            for _ in range(int(q) - 1):
                R = self.mul(R, E)
            return R
        if q.denominator == 1 and q < 0 and len(E) == 1:
            (m, c), = E.items()
            m2, c2 = self.fixmono(tuple((a, e * q) for a, e in m), Fr(1) / c ** int(-q))
            self.need_nonzero(E)
            return {m2: c2}
        c, f = self.factor(E)
        if q.denominator == 1:
            self.need_nonzero(E)
            m = tuple(sorted((a, e * q) for a, e in f.items()))
            m, c2 = self.fixmono(m, (Fr(1) / c) ** int(-q) if q < 0 else c ** int(q))
            return {m: c2}
        # fractional power: every factor must have a sign
        self.obl.append(('sqrt', E))
        neg = 1 if c > 0 else -1
        mono = []
        R = self.const(1)
        for a, e in f.items():
            A = self.atoms[a]
            if e.denominator == 1 and e.numerator % 2 == 0 and (e * q).denominator == 1 and (e * q).numerator % 2 == 0:
                mono.append((a, e * q))
                continue
            s = self.atom_sign(A)
            if s == 0:
                raise NeedSplit(A.t)
            if s < 0:
                if e.denominator != 1:
                    raise Undef('root of negative')
                if e.numerator % 2:
                    neg = -neg
                # |A|^(e q) = (-A)^(e q)
                if (e * q).denominator == 1:
                    mono.append((a, e * q))
                    if (e * q).numerator % 2:
                        R = escale(R, Fr(-1))
                else:
                    R = self.mul(R, self.powq_neg(A, e * q))
                continue
            mono.append((a, e * q))
        if neg < 0:
            raise Undef('root of a negative number')
        R = self.mul(R, {self.fixmono(tuple(sorted(mono)), Fr(1))[0]: self.fixmono(tuple(sorted(mono)), Fr(1))[1]})
        return self.mul(R, self.ratpow(abs(c), q))

    def powq_neg(self, A, q):
        """(-A)^q for a negative atom A: as a positive poly-like atom"""
        B = self.atom('neg', A.id, A.id, tm.fneg(A.t), 1)
        if B.id not in self.zcache:
            z = z3.Real('neg!%d' % B.id)
            self.zcache[B.id] = z
            self.extra.append(z == -self.zatom(A))
        return {((B.id, Fr(q)),): Fr(1)}

    def ratpow(self, c, q):
        R = self.const(1)
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            if n == 1:
                continue
            for p, e in factors(n).items():
                A = self.atom('prime', int(p), int(p), tm.rat(int(p)), 1)
                R = self.mul(R, {((A.id, Fr(e * sg) * q),): Fr(1)} if True else R)
                R2 = {}
                for m, cc in R.items():
                    m, cc = self.fixmono(m, cc)
                    R2[m] = cc
                R = R2
        return R

    def need_nonzero(self, E):
        self.obl.append(('nonzero', E))

    def inv(self, E):
        return self.powq(E, Fr(-1))

    def log(self, E):
        E = self.canon(E)
        q = self.is_const(E)
        if q is not None and q <= 0:
            raise Undef('log of %s' % q)
        self.obl.append(('positive', E))
        c, f = self.factor(E)
        neg = 1 if c > 0 else -1
        R = self.logq(abs(c))
        for a, e in f.items():
            A = self.atoms[a]
            s = self.atom_sign(A)
            if s == 0:
                if e.denominator == 1 and e.numerator % 2 == 0 and len(f) == 1 and False:
                    pass
                raise NeedSplit(A.t)
            if s < 0:
                if e.denominator != 1:
                    raise Undef('log of negative')
                if e.numerator % 2:
                    neg = -neg
                B = self.powq_neg(A, 1)
                (m, _), = B.items()
                A = self.atoms[m[0][0]]
            R = eadd(R, self.logatom(A), e)
        if neg < 0:
            raise Undef('log of a negative number')
        return R

    def logatom(self, A):
        if A.kind == 'exp':
            return {A.data: Fr(1)}
        L = self.atom('log', A.id, A.id, tm.mk('log', (A.t,), 'f'))
        return self.mono(L)

    def logq(self, c):
        R = {}
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            if n == 1:
                continue
            for p, e in factors(n).items():
                A = self.atom('prime', int(p), int(p), tm.rat(int(p)), 1)
                R = eadd(R, self.logatom(A), Fr(e * sg))
        return R

    def exp(self, E):
        E = self.canon(E)
        m = {}
        R = self.const(1)
        for mo, c in E.items():
            if len(mo) == 1 and mo[0][1] == 1 and self.atoms[mo[0][0]].kind == 'log':
                b = self.atoms[self.atoms[mo[0][0]].data]
                R = self.mul(R, self.fixE({((b.id, c),): Fr(1)}))
            else:
                t = self.mono_term(mo)
                a = self.atom('exp', mo, mo, tm.mk('exp', (t,), 'f'), 1)
                R = self.mul(R, {((a.id, c),): Fr(1)})
        return R

    def fixE(self, E):
        R = {}
        for m, c in E.items():
            m, c = self.fixmono(m, c)
            R[m] = R.get(m, 0) + c
        return R

    def pow(self, B, E):
        q = self.is_const(E)
        if q is not None:
            if q.denominator == 1 or q.denominator <= 24:
                return self.powq(self.canon(B), q)
        qb = self.is_const(B)
        if qb == 0:
            if self.sign_of(E) > 0:
                return {}
            raise TooHard('0 to a power of unknown sign')
        if qb == 1:
            return B
        return self.exp(self.mul(E, self.log(B)))

    def fun(self, name, *args):
        args = [self.canon(a) for a in args]
        t = self.fun_term(name, args)
        a = self.atom('fun', (name, args), (name,) + tuple(self.key(x) for x in args), t)
        return self.mono(a)

    def fun_term(self, name, args):
        ts = [self.to_term(a) for a in args]
        if name == 'igam':
            return tm.mk('sf_gammainc', (ts[1], ts[0]), 'f')
        if name == 'incbet':
            return tm.mk('sf_betainc', (ts[2], ts[0], ts[1]), 'f')
        if name == 'hyp2f1':
            return tm.mk('sf_hyp2f1', (ts[3], ts[0], ts[1], ts[2]), 'f')
        tbl = {'gamma': 'sf_gamma', 'digamma': 'sf_digamma', 'erf': 'sf_erf', 'ndtri': 'sf_norm_inv',
               'trigamma': 'owen_psi1', 'zeta': 'sf_riemann_zeta'}
        return tm.mk(tbl.get(name, name), tuple(ts), 'f')

    def lead_neg(self, E):
        """is the leading coefficient (fixed monomial order) negative"""
        if not E:
            return False
        m = min(E, key=lambda m: (m == ONE, m))
        return E[m] < 0

    def split_const(self, E):
        c = E.get(ONE, Fr(0))
        R = {m: v for m, v in E.items() if m != ONE}
        return R, c

    def gamma(self, E):
        E = self.canon(E)
        R, c = self.split_const(E)
        if not R:
            if c.denominator == 1:
                if c <= 0:
                    raise Undef('gamma pole')
                if c > 170:
                    raise TooHard('gamma of a large integer')
                return self.const(math.factorial(int(c) - 1))
            f = c - math.floor(c)
            k = math.floor(c)
            base = self.powq(self.named('pi'), Fr(1, 2)) if f == Fr(1, 2) else self.fun('gamma', {ONE: f})
        else:
            f = c - math.floor(c)
            k = math.floor(c)
            if abs(k) > 30:
                return self.fun('gamma', E)
            base = self.fun('gamma', eadd(R, self.const(f)))
        acc = base
        x = eadd(R, self.const(f))
        if k > 0:
            for i in range(k):
                acc = self.mul(acc, eadd(x, self.const(i)))
        else:
            for i in range(-k):
                acc = self.mul(acc, self.inv(eadd(x, self.const(-1 - i))))
        return acc

    def loggamma(self, E):
        E = self.canon(E)
        return self.log(self.gamma(E))

    def digamma(self, E):
        E = self.canon(E)
        R, c = self.split_const(E)
        f = c - math.floor(c)
        k = math.floor(c)
        if not R and f == 0:
            if c <= 0:
                raise Undef('digamma pole')
            f, k = Fr(1), k - 1
            base = escale(self.named('euler'), Fr(-1))
        elif not R and f == Fr(1, 2):
            base = eadd(escale(self.named('euler'), Fr(-1)), self.logq(Fr(2)), Fr(-2))
        else:
            if abs(k) > 30:
                return self.fun('digamma', E)
            base = self.fun('digamma', eadd(R, self.const(f)))
        x = eadd(R, self.const(f))
        if k > 0:
            for i in range(k):
                base = eadd(base, self.inv(eadd(x, self.const(i))))
        else:
            for i in range(-k):
                base = eadd(base, self.inv(eadd(x, self.const(-1 - i))), Fr(-1))
        return base

    def trigamma(self, E):
        E = self.canon(E)
        R, c = self.split_const(E)
        f = c - math.floor(c)
        k = math.floor(c)
        if not R and f == 0:
            f, k = Fr(1), k - 1
            base = escale(self.powq(self.named('pi'), Fr(2)), Fr(1, 6))
        elif not R and f == Fr(1, 2):
            base = escale(self.powq(self.named('pi'), Fr(2)), Fr(1, 2))
        else:
            base = self.fun('trigamma', eadd(R, self.const(f)))
        x = eadd(R, self.const(f))
        if k > 0:
            for i in range(k):
                base = eadd(base, self.powq(eadd(x, self.const(i)), Fr(-2)), Fr(-1))
        else:
            for i in range(-k):
                base = eadd(base, self.powq(eadd(x, self.const(-1 - i)), Fr(-2)))
        return base

    def erf(self, E):
        E = self.canon(E)
        if not E:
            return {}
        if self.lead_neg(E):
            return escale(self.fun('erf', escale(E, Fr(-1))), Fr(-1))
        return self.fun('erf', E)

    def igam(self, A, X):
        """regularised lower incomplete gamma P(A, X)"""
        A, X = self.canon(A), self.canon(X)
        if not X:
            return {}
        R, c = self.split_const(A)
        f = c - math.floor(c)
        k = math.floor(c)
        if not R:
            if f == 0:
                f, k = Fr(1), k - 1
            if k < 0:
                raise Undef('igam parameter')
        if not R and f == 1:
            base = eadd(self.const(1), self.exp(escale(X, Fr(-1))), Fr(-1))
        elif not R and f == Fr(1, 2):
            base = self.erf(self.powq(X, Fr(1, 2)))
        else:
            if k > 0 and k < 12 or True:
                base = self.fun('igam', eadd(R, self.const(f)), X) if 0 <= k < 12 else None
            if base is None:
                return self.fun('igam', A, X)
        x = eadd(R, self.const(f))
        ex = self.exp(escale(X, Fr(-1)))
        for i in range(k):
            # P(a+1,x) = P(a,x) - x^a e^-x / Gamma(a+1)
            a = eadd(x, self.const(i))
            t = self.mul(self.mul(self.pow(X, a), ex), self.inv(self.gamma(eadd(a, self.const(1)))))
            base = eadd(base, t, Fr(-1))
        return base

    def incbet(self, A, B, X):
        A, B, X = self.canon(A), self.canon(B), self.canon(X)
        if not X:
            return {}
        if self.is_const(X) == 1:
            return self.const(1)
        qa, qb = self.is_const(A), self.is_const(B)
        if qb == 1:
            return self.pow(X, A)
        Y = self.canon(eadd(self.const(1), X, Fr(-1)))
        if qa == 1:
            return eadd(self.const(1), self.pow(Y, B), Fr(-1))
        if qa is not None and qb is not None and qa.denominator == 1 and qb.denominator == 1 and 0 < qa + qb < 70:
            # integer parameters: binomial tail
            n = int(qa + qb) - 1
            R = {}
            for j in range(int(qa), n + 1):
                R = eadd(R, self.mul(escale(self.powq(X, j) if j else self.const(1), Fr(math.comb(n, j))),
                                     self.powq(Y, n - j) if n - j else self.const(1)))
            return R
        s1 = (self.order(A), self.order(B), self.order(X))
        s2 = (self.order(B), self.order(A), self.order(Y))
        if s2 < s1:
            return eadd(self.const(1), self.fun('incbet', B, A, Y), Fr(-1))
        return self.fun('incbet', A, B, X)

    def order(self, E):
        return sorted((m, c) for m, c in E.items())

    def sincos(self, kind, E):
        E = self.canon(E)
        if not E:
            return self.const(1 if kind == 'cos' else 0)
        neg = self.lead_neg(E)
        if neg:
            E = escale(E, Fr(-1))
        # shifts by multiples of pi/2
        pi = self.keys.get(('const', 'pi'))
        if pi is not None:
            pm = ((pi.id, Fr(1)),)
            c = E.get(pm)
            if c is not None and (2 * c).denominator == 1:
                E = {m: v for m, v in E.items() if m != pm}
                q = int(2 * c) % 4
                sgn = Fr(-1) if (neg and kind == 'sin') else Fr(1)
                for _ in range(q):
                    # sin(u+pi/2)=cos u; cos(u+pi/2)=-sin u
                    if kind == 'sin':
                        kind = 'cos'
                    else:
                        kind, sgn = 'sin', -sgn
                return escale(self.sincos(kind, E), sgn)
        k = self.key(E)
        t = self.to_term(E)
        s = self.atom('sin', E, k, tm.mk('sin', (t,), 'f'))
        c = self.atom('cos', E, k, tm.mk('cos', (t,), 'f'))
        if kind == 'cos':
            return self.mono(c)
        return escale(self.mono(s), Fr(-1) if neg else Fr(1))

    # ---------------------------------------------------------- back to terms
    def mono_term(self, m, c=Fr(1)):
        t = None
        for a, e in m:
            x = self.atoms[a].t
            if e != 1:
                x = tm.mk('ipow', (x, int(e)), 'f') if e.denominator == 1 else tm.mk('pow', (x, tm.rat(e)), 'f')
            t = x if t is None else tm.mk('fmul', (t, x), 'f')
        if t is None:
            return tm.rat(c)
        return t if c == 1 else tm.mk('fmul', (tm.rat(c), t), 'f')

    def to_term(self, E):
        if not E:
            return tm.rat(0)
        s = None
        for m, c in sorted(E.items(), key=lambda t: t[0]):
            x = self.mono_term(m, c)
            s = x if s is None else tm.mk('fadd', (s, x), 'f')
        return s

    # ---------------------------------------------------------- terms -> normal form
    def nf(self, root):
        for t in tm.walk([root]):
            if t.sort == 'f' and t.id not in self.memo:
                self.memo[t.id] = self.one(t)
        return self.memo[root.id]

    def in_range(self, e, lo, hi):
        """lo <= e < hi under the assumptions so far"""
        q = self.is_const(e)
        if q is not None:
            return lo <= q < hi
        z = self.z(e)
        return self.ask(z3.Or(z < z3.RealVal(str(lo)), z >= z3.RealVal(str(hi))), timeout=3000) == z3.unsat

    def int_nf(self, t, signed=False):
        """the number an integer term stands for (read as signed), as a polynomial; every
        operation is shown not to wrap around"""
        if t.op == 'c':
            return self.const(tm.sgn(t.args[0], t.sort) if t.args[0] >> (t.sort - 1) else t.args[0])
        if t.op == 'var':
            self.intvars[t.args[0]] = t
            return self.var(t.args[0], tm.itof(True, t))
        e = self.int_memo.get(t.id)
        if e is not None:
            return e
        w = t.sort
        if t.op in ('zext', 'sext'):
            e = self.int_nf(t.args[0])
            if t.op == 'zext' and not self.in_range(e, 0, 1 << (t.args[0].sort - 1)):
                raise TooHard('sign of an extended integer')
        elif t.op == 'trunc':
            e = self.int_nf(t.args[0])
        elif t.op in ('add', 'sub', 'mul'):
            a, b = self.int_nf(t.args[0]), self.int_nf(t.args[1])
            e = eadd(a, b) if t.op == 'add' else eadd(a, b, Fr(-1)) if t.op == 'sub' else self.mul(a, b)
        elif t.op == 'shl' and t.args[1].op == 'c':
            e = escale(self.int_nf(t.args[0]), Fr(1 << t.args[1].args[0]))
        elif t.op in ('fptouisat', 'fptosisat', 'fptoui', 'fptosi'):
            f = t.args[0]
            e = self.canon(self.nf(f))
            un = 'ui' in t.op
            if not self.integral(e):
                if not self.in_range(e, 0, 1 << 70):
                    z = self.z(e)
                    if self.ask(z >= 0, timeout=3000) == z3.unsat:
                        if not un:
                            raise TooHard('truncation of a negative number')
                        e = {}
                    else:
                        raise NeedSplit(tm.fcmp('olt', f, tm.f64(0.0)))
                e = self.floor(e)
            elif un and not self.in_range(e, 0, 1 << 70):
                if self.ask(self.z(e) >= 0, timeout=3000) == z3.unsat:
                    e = {}
                else:
                    raise NeedSplit(tm.fcmp('olt', f, tm.f64(0.0)))
        elif t.op == 'zextb':
            raise TooHard('boolean as a number')
        elif t.op == 'ite':
            c = self.zbool(t.args[0])
            if self.ask(z3.Not(c), timeout=3000) == z3.unsat:
                e = self.int_nf(t.args[1])
            elif self.ask(c, timeout=3000) == z3.unsat:
                e = self.int_nf(t.args[2])
            else:
                raise NeedSplit(t.args[0])
        else:
            raise TooHard('integer operation ' + t.op)
        if t.op not in ('zext', 'sext') and not self.in_range(e, -(1 << (w - 1)), 1 << (w - 1)):
            raise TooHard('integer wrap-around in ' + tm.show(t)[:60])
        self.int_memo[t.id] = e
        return e

    def integral(self, e):
        """whether a polynomial only takes integer values"""
        for m, c in e.items():
            if c.denominator != 1:
                return False
            for a, k in m:
                A = self.atoms[a]
                if k.denominator != 1 or k < 0:
                    return False
                if not (A.kind == 'var' and A.data in self.intvars or A.kind == 'fun' and A.data[0] == 'floor'):
                    return False
        return True

    def floor(self, x):
        x = self.canon(x)
        whole = {m: c for m, c in x.items() if self.integral({m: c})}
        k = math.floor(x[ONE]) if ONE in x else 0
        rest = {m: c for m, c in x.items() if m not in whole and m != ONE}
        whole.pop(ONE, None)
        if ONE in x and x[ONE] != k:
            rest[ONE] = x[ONE] - k
        r = eadd(whole, self.const(k)) if k else whole
        if not rest:
            return r
        if set(rest) == {ONE}:      # a fraction in (0, 1) is left
            return r
        return eadd(r, self.fun('floor', rest))

    def nonneg(self, e):
        return self.in_range(e, 0, 1 << 64)

    def one(self, t):
        op = t.op
        a = [self.memo[x.id] for x in t.args if isinstance(x, T) and x.sort == 'f']
        if op == 'c':
            v = tm.fval(t)
            if math.isnan(v) or math.isinf(v):
                raise Undef('%r' % v)
            r = num.recognise(t.args[0])
            if r is None:
                return self.const(Fr(v))
            if r.op == 'rat':
                return self.const(r.args[0])
            return self.nf_sub(r)
        if op == 'rat':
            return self.const(t.args[0])
        if op == 'const':
            if t.args[0] == 'e':
                return self.exp(self.const(1))
            if t.args[0] == 'ln2':
                return self.logq(Fr(2))
            return self.named(t.args[0])
        if op == 'var':
            return self.var(t.args[0], t)
        if op in ('uitofp', 'sitofp'):
            e = self.int_nf(t.args[0])
            if op == 'uitofp' and not self.nonneg(e):
                raise TooHard('sign of a converted integer')
            return e
        if op == 'fadd': return eadd(a[0], a[1])
        if op == 'fsub': return eadd(a[0], a[1], Fr(-1))
        if op == 'fneg': return escale(a[0], Fr(-1))
        if op == 'fmul': return self.mul(a[0], a[1])
        if op == 'fdiv': return self.mul(a[0], self.inv(self.canon(a[1])))
        if op == 'ipow':
            return self.powq(self.canon(a[0]) if t.args[1] < 0 else a[0], Fr(t.args[1]))
        if op == 'powi':
            return self.pow(a[0], self.int_nf(t.args[1], True))
        if op == 'pow': return self.pow(a[0], a[1])
        if op == 'sqrt': return self.powq(self.canon(a[0]), Fr(1, 2))
        if op == 'cbrt': return self.powq(self.canon(a[0]), Fr(1, 3))
        if op == 'exp': return self.exp(a[0])
        if op == 'exp2': return self.exp(self.mul(a[0], self.logq(Fr(2))))
        if op == 'log': return self.log(a[0])
        if op == 'log2': return self.mul(self.log(a[0]), self.inv(self.logq(Fr(2))))
        if op == 'log10': return self.mul(self.log(a[0]), self.inv(self.logq(Fr(10))))
        if op == 'fabs':
            s = self.sign_of(a[0])
            if s == 0:
                if not self.canon(a[0]):
                    return {}
                raise NeedSplit(t.args[0])
            return a[0] if s > 0 else escale(a[0], Fr(-1))
        if op in ('sin', 'cos'): return self.sincos(op, a[0])
        if op == 'tan': return self.mul(self.sincos('sin', a[0]), self.inv(self.sincos('cos', a[0])))
        if op == 'tanh':
            e = self.exp(escale(a[0], Fr(2)))
            return self.mul(eadd(e, self.const(-1)), self.inv(eadd(e, self.const(1))))
        if op in ('sinh', 'cosh'):
            e, f = self.exp(a[0]), self.exp(escale(a[0], Fr(-1)))
            return escale(eadd(e, f, Fr(1 if op == 'cosh' else -1)), Fr(1, 2))
        if op in ('atan', 'asin'):
            x = self.canon(a[0])
            if not x:
                return {}
            q = self.is_const(x)
            if q is not None and abs(q) == 1:
                return escale(self.named('pi'), q * (Fr(1, 4) if op == 'atan' else Fr(1, 2)))
            if self.lead_neg(x):
                return escale(self.fun(op, escale(x, Fr(-1))), Fr(-1))
            return self.fun(op, x)
        if op == 'acos':
            x = self.canon(a[0])
            r = self.fun('asin', x) if not self.lead_neg(x) else escale(self.fun('asin', escale(x, Fr(-1))), Fr(-1))
            return eadd(escale(self.named('pi'), Fr(1, 2)), r, Fr(-1))
        if op == 'sf_gamma': return self.gamma(a[0])
        if op == 'sf_rgamma': return self.inv(self.gamma(a[0]))
        if op == 'sf_factorial': return self.gamma(eadd(a[0], self.const(1)))
        if op == 'sf_loggamma': return self.loggamma(a[0])
        if op == 'sf_digamma': return self.digamma(a[0])
        if op == 'owen_psi1': return self.trigamma(a[0])
        if op == 'sf_beta':
            return self.mul(self.mul(self.gamma(a[0]), self.gamma(a[1])), self.inv(self.gamma(eadd(a[0], a[1]))))
        if op == 'sf_erf': return self.erf(a[0])
        if op == 'sf_erfc': return eadd(self.const(1), self.erf(a[0]), Fr(-1))
        if op == 'sf_norm':
            x = self.mul(a[0], self.ratpow(Fr(1, 2), Fr(1, 2)))
            return eadd(self.const(Fr(1, 2)), self.erf(x), Fr(1, 2))
        if op == 'sf_norm_inv':
            q = self.is_const(self.canon(a[0]))
            if q == Fr(1, 2):
                return {}
            return self.fun('ndtri', a[0])
        if op == 'sf_gammainc': return self.igam(a[1], a[0])
        if op == 'sf_gammac': return eadd(self.const(1), self.igam(a[1], a[0]), Fr(-1))
        if op == 'sf_gammac_inv': return self.fun('sf_gammac_inv', a[0], a[1])
        if op == 'sf_betainc': return self.incbet(a[1], a[2], a[0])
        if op == 'sf_hyp2f1': return self.fun('hyp2f1', a[1], a[2], a[3], a[0])
        if op == 'sf_riemann_zeta':
            q = self.is_const(self.canon(a[0]))
            if q == 3:
                return self.named('zeta3')
            if q == 2:
                return escale(self.powq(self.named('pi'), 2), Fr(1, 6))
            return self.fun('zeta', a[0])
        if op == 'floor': return self.floor(a[0])
        if op == 'ceil': return escale(self.floor(escale(a[0], Fr(-1))), Fr(-1))
        if op in ('trunc', 'round'):        # round: half away from zero
            s = self.sign_of(a[0])
            if s == 0:
                if not self.canon(a[0]):
                    return {}
                raise NeedSplit(t.args[0])
            h = self.const(Fr(1, 2)) if op == 'round' else {}
            return escale(self.floor(eadd(escale(a[0], Fr(s)), h)), Fr(s))
        if op == 'ite':
            raise TooHard('unsplit ite')
        if op == 'tab' and log_factorials(t.args[0]):
            return self.loggamma(eadd(self.int_nf(t.args[1]), self.const(1)))
        if op.startswith('sf_'):
            return self.fun(op, *a)
        raise TooHard('real reading of ' + op)

    def nf_sub(self, t):
        return self.nf(t)

    # ---------------------------------------------------------- conditions
    def zbool(self, t):
        op = t.op
        if op == 'c':
            return z3.BoolVal(bool(t.args[0]))
        if op == 'not': return z3.Not(self.zbool(t.args[0]))
        if op == 'and': return z3.And(*[self.zbool(x) for x in t.args])
        if op == 'or': return z3.Or(*[self.zbool(x) for x in t.args])
        if op == 'xor': return z3.Xor(*[self.zbool(x) for x in t.args])
        if op in ('flt', 'fle', 'feq'):
            for i, x in enumerate(t.args):
                if x.op == 'c' and math.isinf(tm.fval(x)):
                    pos = tm.fval(x) > 0
                    if op == 'feq':
                        return z3.BoolVal(False)
                    return z3.BoolVal(pos == (i == 1))
                if x.op == 'c' and math.isnan(tm.fval(x)):
                    return z3.BoolVal(False)
            d = eadd(self.nf(t.args[0]), self.nf(t.args[1]), Fr(-1))
            return self.zcmp({'flt': '<', 'fle': '<=', 'feq': '=='}[op], d)
        if op == 'uno':
            return z3.BoolVal(False)
        if op == 'fpclass':
            # finite reals: zero, positive or negative normal
            m = t.args[1]
            x = self.nf(t.args[0])
            cs = []
            if m & 0x60: cs.append(self.zcmp('==', x))
            if m & 0x108 == 0x108: cs.append(self.zcmp('!=', x))
            elif m & 8: cs.append(self.zcmp('<', x))
            elif m & 0x100: cs.append(self.zcmp('>', x))
            return z3.Or(*cs) if cs else z3.BoolVal(False)
        if op in ('eq', 'ult', 'slt') and t.args[0].sort != 'b':
            x, y = self.int_nf(t.args[0]), self.int_nf(t.args[1])
            d = eadd(x, y, Fr(-1))
            z = self.z(d)
            if op == 'eq':
                return z == 0
            if op == 'ult':
                # a constant >= 2^63 was read as negative
                for k in t.args:
                    if k.op == 'c' and k.args[0] >> (k.sort - 1):
                        raise TooHard('huge unsigned constant')
                if not (self.nonneg(x) and self.nonneg(y)):
                    raise TooHard('sign of a compared integer')
            return z < 0
        if op in ('umulo', 'uaddo', 'smulo', 'saddo', 'ssubo'):
            x, y = self.int_nf(t.args[0]), self.int_nf(t.args[1])
            r = self.z(self.mul(x, y) if 'mul' in op else eadd(x, y, Fr(1 if 'add' in op else -1)))
            w = t.args[0].sort
            if op[0] == 'u':
                return z3.Or(r >= z3.RealVal(str(1 << w)), r < 0)
            return z3.Or(r >= z3.RealVal(str(1 << (w - 1))), r < -z3.RealVal(str(1 << (w - 1))))
        if op == 'var' and t.sort == 'b':
            return z3.Bool(t.args[0])
        raise TooHard('condition ' + op)

    def add_assume(self, c):
        if c.op == 'c':
            if not c.args[0]:
                self.dead = True
            return
        if c.op == 'and':
            for x in c.args:
                self.add_assume(x)
            return
        n = len(self.obl)
        self.zassume.append(self.zbool(c))
        self.assume.append(c)
        # signs learnt so far may improve
        for a in self.atoms:
            if a.kind in ('var', 'fun', 'log', 'poly') and a.sign == 0:
                pass
        self.signs = {k: v for k, v in self.signs.items() if v}


def _nd(q):
    return q.numerator, q.denominator


_lf_cache = {}


def log_factorials(ents):
    """whether a table of doubles is ln 0!, ln 1!, ..."""
    r = _lf_cache.get(ents)
    if r is None:
        r = len(ents) > 3
        for i, e in enumerate(ents):
            v = num.mp.loggamma(i + 1) if i > 1 else num.mpf(0)
            if not r or abs(num.mpf(tm.fval(tm.fbits(e))) - v) > num.mpf(2) ** -48 * abs(v):
                r = False
                break
        _lf_cache[ents] = r
    return r


def poly_factor(terms, n):
    """{exponents: Fraction} -> (coefficient, [({exponents: Fraction}, multiplicity)])"""
    den = 1
    for c in terms.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in terms.values():
        g = math.gcd(g, int(c * den))
    lead = max(terms)
    coef = Fr(g, den) * (1 if terms[lead] > 0 else -1)
    ints = {e: int(c / coef) for e, c in terms.items()}
    # drop generators that do not occur
    used = [i for i in range(n) if any(e[i] for e in ints)]
    key = tuple(sorted((tuple(e[i] for i in used), c) for e, c in ints.items()))
    fac = _factor_cache.get(key)
    if fac is None:
        if len(ints) > 220 or not used:
            fac = [(dict(key), 1)]
        else:
            names = ['x%d' % i for i in range(len(used))]
            Rg = ring(names, sympy.ZZ)[0]
            p = Rg.from_dict({e: sympy.ZZ(c) for e, c in key})
            c0, fs = p.factor_list()
            fac = []
            sgn = int(c0)
            for f, k in fs:
                d = {tuple(e): int(c) for e, c in f.terms()}
                l = max(d)
                if d[l] < 0:
                    d = {e: -c for e, c in d.items()}
                    sgn *= (-1) ** k
                fac.append((d, k))
            if sgn != 1:
                fac.append(({tuple([0] * len(used)): sgn}, 1))
        _factor_cache[key] = fac
    out = []
    for d, k in fac:
        o = {}
        for e, c in d.items():
            full = [0] * n
            for i, x in zip(used, e):
                full[i] = x
            o[tuple(full)] = Fr(c)
        out.append((o, k))
    return coef, out


# ------------------------------------------------------------------ derivative
def diff(t, v, memo=None):
    """d t / d v at term level"""
    memo = {} if memo is None else memo
    R = tm.rat
    for s in tm.walk([t]):
        if s.id in memo:
            continue
        memo[s.id] = _diff1(s, v, memo)
    return memo[t.id]


ZERO_T = None


def _z(t):
    return t.op == 'rat' and t.args[0] == 0


def A(x, y):
    if _z(x): return y
    if _z(y): return x
    return tm.mk('fadd', (x, y), 'f')


def S(x, y):
    if _z(y): return x
    if _z(x): return tm.fneg(y)
    return tm.mk('fsub', (x, y), 'f')


def M(x, y):
    if _z(x) or _z(y): return tm.rat(0)
    if x.op == 'rat' and x.args[0] == 1: return y
    if y.op == 'rat' and y.args[0] == 1: return x
    return tm.mk('fmul', (x, y), 'f')


def D(x, y):
    if _z(x): return x
    return tm.mk('fdiv', (x, y), 'f')


def f_(n, *a):
    return tm.mk(n, a, 'f')


def _diff1(s, v, memo):
    r = tm.rat
    if s is v:
        return r(1)
    if s.sort != 'f' or s.op in ('c', 'rat', 'const', 'var', 'uitofp', 'sitofp', 'tab'):
        return r(0)
    a = [x for x in s.args if isinstance(x, T)]
    d = [memo[x.id] for x in a]
    if all(x.sort == 'f' and _z(y) for x, y in zip(a, d)):
        return r(0)
    op = s.op
    if op == 'fadd': return A(d[0], d[1])
    if op == 'fsub': return S(d[0], d[1])
    if op == 'fneg': return tm.fneg(d[0])
    if op == 'fmul': return A(M(d[0], a[1]), M(a[0], d[1]))
    if op == 'fdiv': return S(D(d[0], a[1]), D(M(a[0], d[1]), M(a[1], a[1])))
    if op == 'ipow':
        k = s.args[1]
        return M(M(r(k), tm.mk('ipow', (a[0], k - 1), 'f')), d[0])
    if op == 'powi':
        n = tm.itof(True, a[1])
        return M(M(n, D(s, a[0])), d[0])
    if op == 'pow':
        if _z(d[1]):
            return M(M(a[1], f_('pow', a[0], S(a[1], r(1)))), d[0])
        return M(s, A(M(d[1], f_('log', a[0])), D(M(a[1], d[0]), a[0])))
    if op == 'sqrt': return D(d[0], M(r(2), s))
    if op == 'exp': return M(s, d[0])
    if op == 'log': return D(d[0], a[0])
    if op == 'log2': return D(D(d[0], a[0]), f_('log', r(2)))
    if op == 'sin': return M(f_('cos', a[0]), d[0])
    if op == 'cos': return tm.fneg(M(f_('sin', a[0]), d[0]))
    if op == 'tan': return M(A(r(1), M(s, s)), d[0])
    if op == 'atan': return D(d[0], A(r(1), M(a[0], a[0])))
    if op == 'asin': return D(d[0], f_('sqrt', S(r(1), M(a[0], a[0]))))
    if op == 'tanh': return M(S(r(1), M(s, s)), d[0])
    if op == 'cosh': return M(f_('sinh', a[0]), d[0])
    if op == 'sinh': return M(f_('cosh', a[0]), d[0])
    if op == 'sf_erf':
        return M(M(D(r(2), f_('sqrt', tm.const('pi'))), f_('exp', tm.fneg(M(a[0], a[0])))), d[0])
    if op == 'sf_erfc':
        return tm.fneg(M(M(D(r(2), f_('sqrt', tm.const('pi'))), f_('exp', tm.fneg(M(a[0], a[0])))), d[0]))
    if op == 'sf_norm':
        return M(M(D(r(1), f_('sqrt', M(r(2), tm.const('pi')))), f_('exp', D(tm.fneg(M(a[0], a[0])), r(2)))), d[0])
    if op in ('sf_gammainc', 'sf_gammac') and _z(d[1]):
        x, p = a
        g = D(M(f_('pow', x, S(p, r(1))), f_('exp', tm.fneg(x))), f_('sf_gamma', p))
        return M(g if op == 'sf_gammainc' else tm.fneg(g), d[0])
    if op == 'sf_betainc' and _z(d[1]) and _z(d[2]):
        x, p, q = a
        g = D(M(f_('pow', x, S(p, r(1))), f_('pow', S(r(1), x), S(q, r(1)))), f_('sf_beta', p, q))
        return M(g, d[0])
    if op == 'sf_loggamma': return M(f_('sf_digamma', a[0]), d[0])
    if op == 'sf_gamma': return M(M(s, f_('sf_digamma', a[0])), d[0])
    if op == 'sf_digamma': return M(f_('owen_psi1', a[0]), d[0])
    if op == 'sf_beta':
        p = f_('sf_digamma', A(a[0], a[1]))
        return M(s, A(M(S(f_('sf_digamma', a[0]), p), d[0]), M(S(f_('sf_digamma', a[1]), p), d[1])))
    raise TooHard('derivative of ' + op)
