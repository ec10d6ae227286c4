"""Exact lowering: doubles are IEEE-754 binary64 (z3 FloatingPoint), machine
integers are bit vectors. Operations outside the theory are uninterpreted."""
import time

import z3

import term as tm
from term import T

FS = z3.Float64()
RNE = z3.RNE()

UF1 = {}


def uf(name, n):
    k = (name, n)
    if k not in UF1:
        UF1[k] = z3.Function('uf_%s_%d' % (name, n), *([FS] * n + [FS]))
    return UF1[k]


class Lower:
    """memoising translation. abstract: set of ops treated as uninterpreted
    (fmul/fdiv/frem when the exact circuit is not needed)."""

    def __init__(self, abstract=()):
        self.memo = {}
        self.abstract = set(abstract)
        self.vars = {}
        self.side = []      # side constraints of introduced symbols

    def var(self, t):
        n = t.args[0]
        if n not in self.vars:
            if t.sort == 'f':
                self.vars[n] = z3.FP(n, FS)
            elif t.sort == 'b':
                self.vars[n] = z3.Bool(n)
            else:
                self.vars[n] = z3.BitVec(n, t.sort)
        return self.vars[n]

    def __call__(self, root):
        for t in tm.walk([root]):
            if t.id not in self.memo:
                self.memo[t.id] = self.one(t, [self.memo[a.id] for a in t.args if isinstance(a, T)])
        return self.memo[root.id]

    def one(self, t, a):
        op, n = t.op, t.sort
        if op == 'c':
            if n == 'b':
                return z3.BoolVal(bool(t.args[0]))
            if n == 'f':
                return z3.fpBVToFP(z3.BitVecVal(t.args[0], 64), FS)
            return z3.BitVecVal(t.args[0], n)
        if op == 'var':
            return self.var(t)
        if op in self.abstract and n == 'f':
            if op in ('fadd', 'fmul'):
                a = sorted(a, key=lambda e: e.get_id())
            return uf(op, len(a))(*a)
        if op == 'fadd': return z3.fpAdd(RNE, *a)
        if op == 'fsub': return z3.fpSub(RNE, *a)
        if op == 'fmul': return z3.fpMul(RNE, *a)
        if op == 'fdiv': return z3.fpDiv(RNE, *a)
        if op == 'fneg': return z3.fpNeg(*a)
        if op == 'fabs': return z3.fpAbs(*a)
        if op == 'sqrt': return z3.fpSqrt(RNE, *a)
        if op == 'floor': return z3.fpRoundToIntegral(z3.RTN(), *a)
        if op == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), *a)
        if op == 'trunc' and n == 'f': return z3.fpRoundToIntegral(z3.RTZ(), *a)
        if op == 'round': return z3.fpRoundToIntegral(z3.RNA(), *a)
        if op == 'flt': return z3.fpLT(*a)
        if op == 'fle': return z3.fpLEQ(*a)
        if op == 'feq': return z3.fpEQ(*a)
        if op == 'uno': return z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1]))
        if op == 'fpclass':
            m, x = t.args[1], a[0]
            neg = z3.fpIsNegative(x)
            cs = []
            if m & 3: cs.append(z3.fpIsNaN(x))
            if m & 0x4: cs.append(z3.And(z3.fpIsInf(x), neg))
            if m & 0x200: cs.append(z3.And(z3.fpIsInf(x), z3.Not(neg)))
            if m & 0x8: cs.append(z3.And(z3.fpIsNormal(x), neg))
            if m & 0x100: cs.append(z3.And(z3.fpIsNormal(x), z3.Not(neg)))
            if m & 0x10: cs.append(z3.And(z3.fpIsSubnormal(x), neg))
            if m & 0x80: cs.append(z3.And(z3.fpIsSubnormal(x), z3.Not(neg)))
            if m & 0x20: cs.append(z3.And(z3.fpIsZero(x), neg))
            if m & 0x40: cs.append(z3.And(z3.fpIsZero(x), z3.Not(neg)))
            return z3.Or(*cs) if cs else z3.BoolVal(False)
        if op == 'ite': return z3.If(*a)
        if op == 'not': return z3.Not(*a)
        if n == 'b' and op == 'and': return z3.And(*a)
        if n == 'b' and op == 'or': return z3.Or(*a)
        if n == 'b' and op == 'xor': return z3.Xor(*a)
        if op == 'eq': return a[0] == a[1]
        if op == 'ult': return z3.ULT(*a)
        if op == 'slt': return a[0] < a[1]
        if op == 'umulo': return z3.Not(z3.BVMulNoOverflow(a[0], a[1], False))
        if op == 'smulo':
            return z3.Not(z3.And(z3.BVMulNoOverflow(a[0], a[1], True), z3.BVMulNoUnderflow(a[0], a[1])))
        if op == 'uaddo': return z3.Not(z3.BVAddNoOverflow(a[0], a[1], False))
        if op == 'saddo':
            return z3.Not(z3.And(z3.BVAddNoOverflow(a[0], a[1], True), z3.BVAddNoUnderflow(a[0], a[1])))
        if op == 'ssubo':
            return z3.Not(z3.And(z3.BVSubNoOverflow(a[0], a[1]), z3.BVSubNoUnderflow(a[0], a[1], True)))
        if op == 'uitofp': return z3.fpUnsignedToFP(RNE, a[0], FS) if hasattr(z3, 'fpUnsignedToFP') else z3.fpToFPUnsigned(RNE, a[0], FS)
        if op == 'sitofp': return z3.fpSignedToFP(RNE, a[0], FS)
        if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(n))
        if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(n))
        if op == 'fptouisat':
            x = a[0]
            hi = z3.FPVal(float(2 ** n), FS)
            return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpLEQ(x, z3.FPVal(0.0, FS))), z3.BitVecVal(0, n),
                         z3.If(z3.fpGEQ(x, hi), z3.BitVecVal(2 ** n - 1, n), z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(n))))
        if op == 'fptosisat':
            x = a[0]
            hi, lo = z3.FPVal(float(2 ** (n - 1)), FS), z3.FPVal(-float(2 ** (n - 1)), FS)
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, n),
                         z3.If(z3.fpGEQ(x, hi), z3.BitVecVal(2 ** (n - 1) - 1, n),
                               z3.If(z3.fpLEQ(x, lo), z3.BitVecVal(2 ** (n - 1), n),
                                     z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(n)))))
        if op == 'bits2f': return z3.fpBVToFP(a[0], FS)
        if op == 'f2bits': return z3.fpToIEEEBV(a[0])
        if op == 'tab':
            ents, idx = t.args[0], a[0]
            def leaf(e):
                return z3.fpBVToFP(z3.BitVecVal(e, 64), FS) if n == 'f' else z3.BitVecVal(e, n)
            def build(lo, hi):
                if hi - lo == 1:
                    return leaf(ents[lo])
                mid = (lo + hi) // 2
                return z3.If(z3.ULT(idx, z3.BitVecVal(mid, idx.size())), build(lo, mid), build(mid, hi))
            return build(0, len(ents))
        if op == 'zextb': return z3.If(a[0], z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if op == 'zext': return z3.ZeroExt(n - a[0].size(), a[0])
        if op == 'sext': return z3.SignExt(n - a[0].size(), a[0])
        if op == 'trunc': return z3.Extract(n - 1, 0, a[0])
        if op == 'add': return a[0] + a[1]
        if op == 'sub': return a[0] - a[1]
        if op == 'mul': return a[0] * a[1]
        if op == 'udiv': return z3.UDiv(*a)
        if op == 'urem': return z3.URem(*a)
        if op == 'sdiv': return a[0] / a[1]
        if op == 'srem': return z3.SRem(*a)
        if op == 'shl': return a[0] << a[1]
        if op == 'lshr': return z3.LShR(*a)
        if op == 'ashr': return a[0] >> a[1]
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return a[0] ^ a[1]
        if op in ('umin', 'umax'):
            c = z3.ULT(a[0], a[1])
            return z3.If(c, a[0], a[1]) if op == 'umin' else z3.If(c, a[1], a[0])
        if op in ('smin', 'smax'):
            c = a[0] < a[1]
            return z3.If(c, a[0], a[1]) if op == 'smin' else z3.If(c, a[1], a[0])
        if op == 'ipow':
            return uf('ipow_%d' % t.args[1], 1)(*a)
        if n == 'f' and all(z3.is_fp(x) for x in a):
            return uf(op, len(a))(*a)
        raise NotImplementedError('fp lowering of ' + op)


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0

    def add(self, r, dt):
        self.queries += 1
        self.time += dt
        if r == z3.sat: self.sat += 1
        elif r == z3.unsat: self.unsat += 1
        else: self.unknown += 1


class Feas:
    """branch feasibility by z3 on the exact lowering"""

    def __init__(self, stats, timeout=3000, abstract=('fmul', 'fdiv', 'frem', 'fadd', 'fsub', 'sqrt')):
        self.low = Lower(abstract)
        self.stats = stats
        self.timeout = timeout
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.stack = []

    def sync(self, pc):
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k] is pc[k]:
            k += 1
        while len(self.stack) > k:
            self.s.pop()
            self.stack.pop()
        for c in pc[k:]:
            self.s.push()
            self.s.add(self.low(c))
            self.stack.append(c)

    def check(self, c):
        t = time.time()
        r = self.s.check(c)
        self.stats.add(r, time.time() - t)
        return r

    def implied(self, pc, cond):
        self.sync(pc)
        z = self.low(cond)
        if self.check(z3.Not(z)) == z3.unsat:
            return True
        if self.check(z) == z3.unsat:
            return False
        return None


def model_value(m, v):
    """python value of a z3 constant in a model (floats as float, ints as int)"""
    e = m.eval(v, model_completion=True)
    if z3.is_fp(e):
        if z3.is_fprm(e):
            return None
        if e.isNaN():
            return float('nan')
        if e.isInf():
            return float('-inf') if e.isNegative() else float('inf')
        if e.isZero():
            return -0.0 if e.isNegative() else 0.0
        b = z3.simplify(z3.fpToIEEEBV(e))
        import struct
        return struct.unpack('<d', struct.pack('<Q', b.as_long()))[0]
    if z3.is_bool(e):
        return z3.is_true(e)
    return e.as_long()
