"""Symbolic execution of LLVM IR functions. One call of `run` explores every
path of one harness function and returns the outcomes."""
import struct
import re
import time

import term as tm
from term import T, bv, f64, fbits, boolc, ibin, icmp, ite, band, bor, bnot, mk
from ir import I, DOUBLE, PTR, IRError


class Unsupported(Exception):
    pass


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class Killed(Exception):
    """this path ends (panic, unreachable, infeasible)"""

    def __init__(self, kind, why=''):
        self.kind, self.why = kind, why


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __repr__(self):
        return 'ptr(%s+%s)' % (self.r, self.o)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn(%s)' % self.name


class SymP:
    """an address that is only an integer term (never dereferenced)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Region:
    __slots__ = ('size', 'cells', 'raw', 'ro', 'freed', 'name')

    def __init__(self, size, raw=None, ro=False, name=''):
        self.size, self.raw, self.ro, self.cells, self.freed, self.name = size, raw, ro, {}, False, name

    def copy(self):
        r = Region(self.size, self.raw, self.ro, self.name)
        r.cells = dict(self.cells)
        r.freed = self.freed
        return r


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'idx', 'regs', 'dst', 'allocas')

    def __init__(self, fn, dst):
        self.fn, self.dst = fn, dst
        self.block, self.prev, self.idx, self.regs = fn.entry, None, 0, {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.dst, f.block, f.prev, f.idx = self.fn, self.dst, self.block, self.prev, self.idx
        f.regs = dict(self.regs)
        return f


class State:
    def __init__(self):
        self.frames, self.mem, self.own = [], {}, set()
        self.pc, self.known = [], {}
        self.draws = []
        self.steps = 0
        self.nreg = 0
        self.notes = []

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.draws = list(self.draws)
        s.steps, s.nreg = self.steps, self.nreg
        s.notes = list(self.notes)
        return s


class Outcome:
    """kind: 'ret' | 'panic' | 'ub'"""

    def __init__(self, kind, why, state, ret):
        self.kind, self.why, self.pc, self.ret = kind, why, state.pc, ret
        self.draws, self.state = state.draws, state
        self.notes = state.notes


ADDR = 1 << 36


DBG = re.compile(r'!dbg !(\d+)')


class Executor:
    def __init__(self, mod, feas, split_select=True, max_paths=4000, max_steps=400000, deadline=None, split_ints=False):
        self.mod, self.feas = mod, feas
        self.split_select, self.split_ints = split_select, split_ints
        self.max_paths, self.max_steps, self.deadline = max_paths, max_steps, deadline
        self.globals = {}        # name -> region id (negative)
        self.gregions = {}
        self.functions = set()
        self.instructions = 0
        self.seen = set()
        self.nund = 0
        import models
        self.models = models

    # ---- memory
    def new_region(self, st, size, name=''):
        st.nreg += 1
        st.mem[st.nreg] = Region(size, name=name)
        st.own.add(st.nreg)
        return Ptr(st.nreg, 0)

    def region(self, st, rid, write=False):
        if rid is None:
            raise Killed('ub', 'null dereference')
        if rid in self.gregions and rid not in st.mem:
            r = self.gregions[rid]
            if not write:
                return r
            st.mem[rid] = r.copy()
            st.own.add(rid)
            return st.mem[rid]
        r = st.mem[rid]
        if r.freed:
            raise Killed('ub', 'use after free')
        if write and rid not in st.own:
            r = r.copy()
            st.mem[rid] = r
            st.own.add(rid)
        return r

    def addr(self, p):
        """integer term of a pointer"""
        if isinstance(p, SymP):
            return p.t
        if isinstance(p, Fn):
            return bv(0x10000 + (hash(p.name) & 0xffff) * 16, 64)
        base = 0 if p.r is None else p.r * ADDR if p.r > 0 else (1 << 50) + (-p.r) * ADDR
        return ibin('add', self.off(p.o), bv(base, 64))

    def off(self, o):
        return o if isinstance(o, T) else bv(o, 64)

    def toptr(self, t):
        if isinstance(t, (Ptr, Fn, SymP)):
            return t
        if t.op == 'c':
            v = t.args[0]
            if v < ADDR:
                return Ptr(None, v)
            if v >= 1 << 50:
                v -= 1 << 50
                return Ptr(-(v // ADDR), v % ADDR)
            return Ptr(v // ADDR, v % ADDR)
        return SymP(t)

    def padd(self, p, off):
        if isinstance(p, (Fn, SymP)):
            raise Unsupported('gep on function')
        if isinstance(p.o, int) and isinstance(off, int):
            v = (p.o + off) & ((1 << 64) - 1)
            return Ptr(p.r, v - (1 << 64) if v >> 63 else v)
        o = ibin('add', self.off(p.o), self.off(off))
        if o.op == 'c':
            return Ptr(p.r, tm.sgn(o.args[0], 64))
        return Ptr(p.r, o)

    def global_ptr(self, name):
        if name in self.globals:
            return Ptr(self.globals[name], 0)
        body = self.mod.gtext.get(name, '')
        if ' alias ' in ' ' + body:
            tgt = body.rsplit('@', 1)[1]
            tgt = tgt.strip('"')
            return Fn(tgt)
        gi = self.mod.global_init(name) if body else None
        if gi is None:
            if name in self.mod.funcs or name in self.mod.decls:
                return Fn(name)
            raise Unsupported('global ' + name)
        ty, val = gi
        rid = -(len(self.globals) + 1)
        self.globals[name] = rid
        reg = Region(ty.size(), ro=True, name=name)
        self.gregions[rid] = reg
        if val is not None:
            self.init(reg, 0, ty, val)
        return Ptr(rid, 0)

    def init(self, reg, off, ty, val):
        k = val[0]
        if k == 'str':
            if off == 0 and reg.raw is None and len(val[1]) == reg.size:
                reg.raw = val[1]
            else:
                for i, b in enumerate(val[1]):
                    reg.cells[off + i] = (1, bv(b, 8))
        elif k == 'zero':
            n = ty.size()
            i = 0
            while i < n:
                s = 8 if n - i >= 8 else 1
                reg.cells[off + i] = (s, bv(0, 8 * s))
                i += s
        elif k == 'agg':
            for i, (t, v) in enumerate(val[1]):
                self.init(reg, off + ty.offset(i), t, v)
        elif k == 'undef':
            pass
        else:
            v = self.const(ty, val)
            reg.cells[off] = (ty.size(), v)

    def const(self, ty, val):
        k = val[0]
        if k == 'int':
            return boolc(val[1] & 1) if ty.n == 1 else bv(val[1], ty.n)
        if k == 'f':
            return fbits(val[1])
        if k == 'null':
            return Ptr(None, 0)
        if k == 'undef':
            return UNDEF
        if k == 'glob':
            return self.global_ptr(val[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.const(t, v) for t, v in val[1])
        if k == 'str':
            return tuple(bv(b, 8) for b in val[1])
        if k == 'ce':
            if val[1] == 'gep':
                _, _, st, base, idx = val
                p = self.const(PTR, base)
                return self.gep(None, st, p, [(t, self.const(t, v)) for t, v in idx])
            if val[1] == 'inttoptr':
                return self.toptr(self.const(val[2], val[3]))
            if val[1] == 'ptrtoint':
                return tm.trunc(self.addr(self.const(val[2], val[3])), val[4].n)
            if val[1] in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
                return ibin(val[1], self.const(val[2], val[3]), self.const(val[2], val[4]))
            if val[1] == 'trunc':
                return tm.trunc(self.const(val[2], val[3]), val[4].n)
        raise Unsupported('constant %r' % (val,))

    def zero(self, ty):
        if ty.k == 'int':
            return boolc(0) if ty.n == 1 else bv(0, ty.n)
        if ty.k == 'double':
            return f64(0.0)
        if ty.k == 'ptr':
            return Ptr(None, 0)
        if ty.k in ('arr', 'vec'):
            return tuple(self.zero(ty.elems[0]) for _ in range(ty.n))
        if ty.k == 'struct':
            return tuple(self.zero(e) for e in ty.elems)
        raise Unsupported('zero %r' % ty)

    def fresh(self, sort, why):
        self.nund += 1
        return tm.var('undef%d!%s' % (self.nund, why), sort)

    def sort_of(self, ty):
        return 'f' if ty.k == 'double' else ('b' if ty.n == 1 else ty.n)

    def defd(self, v, ty):
        """turn undef into an arbitrary value"""
        if v is UNDEF:
            if ty.k in ('arr', 'vec'):
                return tuple(self.defd(UNDEF, ty.elems[0]) for _ in range(ty.n))
            if ty.k == 'struct':
                return tuple(self.defd(UNDEF, e) for e in ty.elems)
            if ty.k == 'ptr':
                return Ptr(None, 0)
            return self.fresh(self.sort_of(ty), 'undef')
        return v

    def load(self, st, ty, p):
        if ty.k in ('arr', 'vec', 'struct'):
            n = ty.n if ty.k != 'struct' else len(ty.elems)
            return tuple(self.load(st, ty.elem(i), self.padd(p, ty.offset(i))) for i in range(n))
        if isinstance(p, (Fn, SymP)):
            raise Unsupported('load from function')
        if not isinstance(p.o, int):
            return self.load_sym(st, ty, p)
        n = ty.size()
        reg = self.region(st, p.r)
        if p.o < 0 or p.o + n > reg.size:
            raise Killed('ub', 'out of bounds read of %s' % reg.name)
        return self.conv(self.read(reg, p.o, n), ty)

    def read(self, reg, off, n):
        c = reg.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # overlapping cells?
        parts = []
        i = 0
        while i < n:
            c = reg.cells.get(off + i)
            if c is not None and i + c[0] <= n:
                parts.append((i, c[0], c[1]))
                i += c[0]
                continue
            got = None
            for back in range(0, 16):
                c2 = reg.cells.get(off + i - back)
                if c2 is not None and c2[0] > back:
                    v = self.bits(c2[1])
                    if v is UNDEF:
                        got = (i, 1, UNDEF)
                    else:
                        v = tm.trunc(ibin('lshr', v, bv(8 * back, v.sort)), 8) if v.sort > 8 else v
                        got = (i, 1, v)
                    break
            if got is None:
                if reg.raw is not None:
                    got = (i, 1, bv(reg.raw[off + i], 8))
                else:
                    got = (i, 1, UNDEF)
            parts.append(got)
            i += 1
        if any(v is UNDEF for _, _, v in parts):
            return UNDEF
        acc = None
        for i, s, v in parts:
            v = self.bits(v)
            if v.sort == 'b':
                v = tm.zext(v, 8)
            e = ibin('shl', tm.zext(v, 8 * n), bv(8 * i, 8 * n))
            acc = e if acc is None else ibin('or', acc, e)
        return acc

    def bits(self, v):
        if v is UNDEF:
            return v
        if isinstance(v, (Ptr, Fn, SymP)):
            return self.addr(v)
        if v.sort == 'f':
            if v.op == 'c':
                return bv(v.args[0], 64)
            if v.op == 'bits2f':
                return v.args[0]
            return mk('f2bits', (v,), 64)
        if v.sort == 'b':
            return tm.zext(v, 8)
        return v

    def conv(self, v, ty):
        """stored value -> value of type ty (same size)"""
        if v is UNDEF:
            return UNDEF
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, Fn, SymP)):
                return v
            return self.toptr(self.bits(v))
        if isinstance(v, (Ptr, Fn, SymP)):
            v = self.addr(v)
        if ty.k == 'double':
            if v.sort == 'f':
                return v
            if v.op == 'c':
                return fbits(v.args[0])
            if v.op == 'f2bits':
                return v.args[0]
            return mk('bits2f', (v,), 'f')
        if ty.k == 'int':
            if v.sort == 'f':
                v = self.bits(v)
            if v.sort == 'b':
                return v if ty.n == 1 else tm.zext(v, ty.n)
            if ty.n == 1:
                return tm.trunc(v, 1)
            if v.sort != ty.n:
                return tm.trunc(v, ty.n) if v.sort > ty.n else tm.zext(v, ty.n)
            return v
        raise Unsupported('load %r' % ty)

    def store(self, st, ty, v, p):
        if ty.k in ('arr', 'vec', 'struct'):
            n = ty.n if ty.k != 'struct' else len(ty.elems)
            if v is UNDEF:
                return
            for i in range(n):
                self.store(st, ty.elem(i), v[i], self.padd(p, ty.offset(i)))
            return
        if isinstance(p, (Fn, SymP)):
            raise Unsupported('store to function')
        n = ty.size()
        if not isinstance(p.o, int):
            p = Ptr(p.r, self.conc_off(st, p, n))
        reg = self.region(st, p.r, True)
        if p.o < 0 or p.o + n > reg.size:
            raise Killed('ub', 'out of bounds write')
        self.clear(reg, p.o, n)
        if v is not UNDEF:
            reg.cells[p.o] = (n, v)

    def clear(self, reg, off, n):
        """drop what [off, off+n) holds, splitting straddling cells"""
        for back in range(1, 16):
            c = reg.cells.get(off - back)
            if c is not None and c[0] > back:
                self.split(reg, off - back)
        for i in range(n):
            c = reg.cells.get(off + i)
            if c is not None:
                if i + c[0] > n:
                    self.split(reg, off + i)
                reg.cells.pop(off + i, None)
        if reg.raw is not None:
            # materialise the rest
            raw = reg.raw
            reg.raw = None
            for i, b in enumerate(raw):
                if i not in reg.cells and not (off <= i < off + n):
                    reg.cells[i] = (1, bv(b, 8))

    def split(self, reg, off):
        n, v = reg.cells.pop(off)
        v = self.bits(v)
        if v is UNDEF:
            return
        for i in range(n):
            reg.cells[off + i] = (1, tm.trunc(ibin('lshr', v, bv(8 * i, v.sort)), 8) if v.sort > 8 else v)

    def stride(self, t):
        """offset term -> gcd-like stride"""
        if t.op == 'mul' and t.args[1].op == 'c':
            return t.args[1].args[0]
        if t.op == 'add':
            a, b = t.args
            if b.op == 'c':
                return self.stride(a)
            import math
            return math.gcd(self.stride(a), self.stride(b))
        return 1

    def conc_off(self, st, p, n):
        reg = self.region(st, p.r)
        base = 0
        o = p.o
        if o.op == 'add' and o.args[1].op == 'c':
            base = tm.sgn(o.args[1].args[0], 64)
        s = max(1, self.stride(o))
        if reg.size // s > 600:
            raise Unsupported('symbolic offset in a large region')
        start = base % s
        for v in range(start, reg.size - n + 1, s):
            if self.decide(st, icmp('eq', o, bv(v, 64))):
                return v
        raise Killed('ub', 'symbolic offset out of bounds')

    def load_sym(self, st, ty, p):
        reg = self.region(st, p.r)
        n = ty.size()
        if reg.raw is not None and reg.size // n > 24 and ty.k in ('double', 'int'):
            o, base = p.o, 0
            if o.op == 'add' and o.args[1].op == 'c':
                base, o = tm.sgn(o.args[1].args[0], 64), o.args[0]
            if o.op == 'mul' and o.args[1].op == 'c' and o.args[1].args[0] == n and base % n == 0:
                vals = [reg.raw[base + i * n:base + i * n + n] for i in range((reg.size - base) // n)]
                idx = o.args[0]
                if base < 0:
                    vals = vals[-base // n:]
                    idx = tm.ibin('sub', idx, bv(-base // n, 64))
                if not self.decide(st, icmp('ult', idx, bv(len(vals), 64))):
                    raise Killed('ub', 'table index out of bounds')
                ents = tuple(int.from_bytes(v, 'little') for v in vals)
                return mk('tab', (ents, idx), 'f' if ty.k == 'double' else ty.n)
        return self.load(st, ty, Ptr(p.r, self.conc_off(st, p, n)))

    # ---- deciding conditions
    def decide(self, st, c):
        if c.op == 'c':
            return bool(c.args[0])
        neg = False
        if c.op == 'not':
            c, neg = c.args[0], True
        k = st.known.get(c.id)
        if k is None:
            if c.op == 'and':
                for x in c.args:
                    if not self.decide(st, x):
                        return neg
                return not neg
            if c.op == 'or':
                for x in c.args:
                    if self.decide(st, x):
                        return not neg
                return neg
            if c.op == 'xor':
                return (self.decide(st, c.args[0]) != self.decide(st, c.args[1])) != neg
            k = self.feas.implied(st.pc, c)
            if k is None:
                raise ForkOn(c)
            st.known[c.id] = k
        return k != neg

    def concretize(self, st, t, lo=0, hi=64, signed=False):
        if t.op == 'c':
            return tm.sgn(t.args[0], t.sort) if signed else t.args[0]
        for v in range(lo, hi + 1):
            if self.decide(st, icmp('eq', t, bv(v, t.sort))):
                return v
        raise Unsupported('cannot concretize')

    # ---- values
    def val(self, fr, ty, v):
        if v[0] == 'reg':
            return fr.regs[v[1]]
        return self.const(ty, v)

    def term(self, fr, ty, v):
        x = self.val(fr, ty, v)
        return self.defd(x, ty)

    def gep(self, fr, st_ty, p, idx):
        off = 0
        ty = st_ty
        for i, (t, v) in enumerate(idx):
            if i == 0:
                off = self.oadd(off, self.omul(v, ty.size()))
            else:
                if ty.k == 'struct':
                    j = v.args[0]
                    off = self.oadd(off, ty.offset(j))
                    ty = ty.elems[j]
                else:
                    ty = ty.elems[0]
                    off = self.oadd(off, self.omul(v, ty.size()))
        return self.padd(p, off)

    def omul(self, v, n):
        v = v if v.sort == 64 else tm.sext(v, 64)
        if v.op == 'c':
            return tm.sgn(v.args[0], 64) * n
        return ibin('mul', v, bv(n, 64))

    def oadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return ibin('add', self.off(a), self.off(b))

    # ---- running
    def run(self, name, args, setup, pc=()):
        """args: list of values; setup(state) may create regions and returns args"""
        st = State()
        st.pc = list(pc)
        args = setup(self, st) if setup else args
        fn = self.getfn(name)
        fr = Frame(fn, None)
        for (t, nm), a in zip(fn.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        work, outs = [st], []
        while work:
            if len(work) + len(outs) > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            st = work.pop()
            try:
                while True:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('out of time')
                    try:
                        r = self.step(st)
                    except ForkOn as f:
                        s2 = st.copy()
                        for s, b in ((s2, False), (st, True)):
                            s.known[f.cond.id] = b
                            s.pc.append(f.cond if b else bnot(f.cond))
                        work.append(s2)
                        continue
                    if r is not None:
                        outs.append(Outcome('ret', '', st, r[0]))
                        break
            except Killed as k:
                outs.append(Outcome(k.kind, k.why, st, None))
        return outs

    def getfn(self, name):
        for _ in range(5):
            fn = self.mod.get(name)
            if fn is not None:
                self.functions.add(name)
                self.seen.add((name, fn.entry))
                return fn
            g = self.mod.gtext.get(name)
            if g and ' alias ' in ' ' + g:
                name = g.rsplit('@', 1)[1].strip('"')
                continue
            return None

    def debug_ids(self):
        r = set()
        for f, b in self.seen:
            f = self.mod.funcs.get(f)
            if f is not None and b in f.blocks:
                for l in f.blocks[b].lines:
                    m = DBG.search(l)
                    if m:
                        r.add(int(m.group(1)))
        return r

    def step(self, st):
        fr = st.frames[-1]
        st.steps += 1
        self.instructions += 1
        if st.steps > self.max_steps:
            raise Unsupported('more than %d steps on a path' % self.max_steps)
        ins = fr.fn.blocks[fr.block][fr.idx]
        return getattr(self, 'i_' + ins[0])(st, fr, ins)

    def jump(self, st, fr, lab):
        blk = fr.fn.blocks[lab]
        prev = fr.block
        i = 0
        new = {}
        while i < len(blk) and ' = phi ' in blk.lines[i]:
            _, dst, ty, inc = blk[i]
            new[dst] = self.val(fr, ty, inc[prev])
            i += 1
        fr.regs.update(new)
        fr.prev, fr.block, fr.idx = prev, lab, i
        self.seen.add((fr.fn.name, lab))

    def i_nop(self, st, fr, ins):
        fr.idx += 1

    def i_br(self, st, fr, ins):
        self.jump(st, fr, ins[1])

    def i_cbr(self, st, fr, ins):
        c = self.term(fr, I(1), ins[1])
        self.jump(st, fr, ins[2] if self.decide(st, c) else ins[3])

    def i_switch(self, st, fr, ins):
        _, ty, v, d, cs = ins
        x = self.term(fr, ty, v)
        for cv, lab in cs:
            cc = boolc(cv & 1) if ty.n == 1 else bv(cv, ty.n)
            if self.decide(st, icmp('eq', x, cc)):
                self.jump(st, fr, lab)
                return
        self.jump(st, fr, d)

    def i_unreachable(self, st, fr, ins):
        raise Killed('ub', 'unreachable reached in %s' % fr.fn.name)

    def i_ret(self, st, fr, ins):
        v = None if ins[2] is None else self.val(fr, ins[1], ins[2])
        st.frames.pop()
        if not st.frames:
            return (v,)
        up = st.frames[-1]
        if fr.dst is not None:
            up.regs[fr.dst] = v
        up.idx += 1

    def i_alloca(self, st, fr, ins):
        n = self.concretize(st, self.val(fr, I(64), ins[3]) if ins[3][0] == 'reg' else bv(ins[3][1], 64))
        fr.regs[ins[1]] = self.new_region(st, ins[2].size() * n, 'stack')
        fr.idx += 1

    def i_load(self, st, fr, ins):
        fr.regs[ins[1]] = self.load(st, ins[2], self.val(fr, PTR, ins[3]))
        fr.idx += 1

    def i_store(self, st, fr, ins):
        self.store(st, ins[1], self.val(fr, ins[1], ins[2]), self.val(fr, PTR, ins[3]))
        fr.idx += 1

    def i_gep(self, st, fr, ins):
        _, dst, sty, base, idx = ins
        fr.regs[dst] = self.gep(fr, sty, self.val(fr, PTR, base), [(t, self.term(fr, t, v)) for t, v in idx])
        fr.idx += 1

    def lanes(self, ty, f, *vs):
        if ty.k == 'vec':
            return tuple(f(*[v[i] if v is not UNDEF else UNDEF for v in vs]) for i in range(ty.n))
        return f(*vs)

    def i_icmp(self, st, fr, ins):
        _, dst, pred, ty, a, b = ins
        x, y = self.term(fr, ty, a), self.term(fr, ty, b)

        def one(x, y):
            if isinstance(x, (Ptr, Fn, SymP)) or isinstance(y, (Ptr, Fn, SymP)):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                    return icmp(pred, self.off(x.o), self.off(y.o))
                if pred in ('eq', 'ne') and isinstance(x, Ptr) and isinstance(y, Ptr):
                    return boolc(pred == 'ne')
                return icmp(pred, self.addr(x), self.addr(y))
            return icmp(pred, x, y)
        fr.regs[dst] = self.lanes(ty, one, x, y)
        fr.idx += 1

    def i_fcmp(self, st, fr, ins):
        _, dst, pred, ty, a, b = ins
        fr.regs[dst] = self.lanes(ty, lambda x, y: tm.fcmp(pred, x, y), self.term(fr, ty, a), self.term(fr, ty, b))
        fr.idx += 1

    def i_select(self, st, fr, ins):
        _, dst, ct, c, ty, a, b = ins
        c = self.term(fr, ct, c)
        x, y = self.val(fr, ty, a), self.val(fr, ty, b)
        if ct.k == 'vec':
            r = tuple(self.sel(st, c[i], self.defd(x, ty)[i], self.defd(y, ty)[i]) for i in range(ct.n))
        else:
            r = self.sel(st, c, x, y)
        fr.regs[dst] = r
        fr.idx += 1

    def sel(self, st, c, x, y):
        if c.op == 'c':
            return x if c.args[0] else y
        if x is y:
            return x
        if isinstance(x, T) and isinstance(y, T):
            if x.sort == 'b' or not self.split_select:
                return ite(c, x, y)
            if x.sort != 'f' and x.op == 'c' and y.op == 'c' and not self.split_ints:
                return ite(c, x, y)
        return x if self.decide(st, c) else y

    def i_bin(self, st, fr, ins):
        _, dst, op, ty, a, b = ins
        x, y = self.term(fr, ty, a), self.term(fr, ty, b)

        def one(x, y):
            if isinstance(x, (Ptr, Fn, SymP)):
                x = self.addr(x)
            if isinstance(y, (Ptr, Fn, SymP)):
                y = self.addr(y)
            if op[0] == 'f':
                if op == 'frem':
                    return mk('frem', (x, y), 'f')
                return tm.fbin(op, x, y)
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y.op != 'c':
                if self.decide(st, icmp('eq', y, bv(0, y.sort))):
                    raise Killed('ub', 'division by zero')
            return ibin(op, x, y)
        fr.regs[dst] = self.lanes(ty, one, x, y)
        fr.idx += 1

    def i_fneg(self, st, fr, ins):
        fr.regs[ins[1]] = self.lanes(ins[2], tm.fneg, self.term(fr, ins[2], ins[3]))
        fr.idx += 1

    def i_freeze(self, st, fr, ins):
        fr.regs[ins[1]] = self.defd(self.val(fr, ins[2], ins[3]), ins[2])
        fr.idx += 1

    def i_cast(self, st, fr, ins):
        _, dst, op, ty, v, to = ins
        x = self.val(fr, ty, v)
        if x is UNDEF:
            fr.regs[dst] = UNDEF
            fr.idx += 1
            return
        te = to.elems[0] if to.k == 'vec' else to

        def one(x):
            if op == 'zext':
                return tm.zext(x, te.n)
            if op == 'sext':
                return tm.sext(x, te.n)
            if op == 'trunc':
                return tm.trunc(x, te.n)
            if op in ('uitofp', 'sitofp') and te.k == 'double':
                return tm.itof(op == 'sitofp', x)
            if op in ('fptoui', 'fptosi'):
                return mk(op, (x,), te.n)
            if op in ('ptrtoint', 'ptrtoaddr'):
                return tm.trunc(self.addr(x), te.n)
            if op == 'inttoptr':
                return self.toptr(x)
            if op == 'bitcast':
                return self.conv(x, te)
            raise Unsupported('cast %s' % op)
        if op == 'bitcast' and (ty.k == 'vec' or to.k == 'vec') and repr(ty) != repr(to):
            raise Unsupported('vector bitcast')
        fr.regs[dst] = self.lanes(ty, one, x)
        fr.idx += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.val(fr, ins[2], ins[3])
        for i in ins[4]:
            v = v if v is UNDEF else v[i]
        fr.regs[ins[1]] = v
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        _, dst, ty, v, et, ev, ix = ins
        agg = self.val(fr, ty, v)
        e = self.val(fr, et, ev)

        def put(a, t, ix):
            if not ix:
                return e
            n = len(t.elems) if t.k == 'struct' else t.n
            l = [UNDEF] * n if a is UNDEF else list(a)
            l[ix[0]] = put(l[ix[0]], t.elem(ix[0]), ix[1:])
            return tuple(l)
        fr.regs[dst] = put(agg, ty, ix)
        fr.idx += 1

    def i_extractelement(self, st, fr, ins):
        _, dst, ty, v, it, iv = ins
        x = self.val(fr, ty, v)
        i = self.concretize(st, self.term(fr, it, iv))
        fr.regs[dst] = UNDEF if x is UNDEF else x[i]
        fr.idx += 1

    def i_insertelement(self, st, fr, ins):
        _, dst, ty, v, et, ev, it, iv = ins
        x = self.val(fr, ty, v)
        i = self.concretize(st, self.term(fr, it, iv))
        l = [UNDEF] * ty.n if x is UNDEF else list(x)
        l[i] = self.val(fr, et, ev)
        fr.regs[dst] = tuple(l)
        fr.idx += 1

    def i_shuffle(self, st, fr, ins):
        _, dst, ty, a, b, mt, m = ins
        x, y = self.val(fr, ty, a), self.val(fr, ty, b)
        x = [UNDEF] * ty.n if x is UNDEF else list(x)
        y = [UNDEF] * ty.n if y is UNDEF else list(y)
        msk = self.const(mt, m)
        fr.regs[dst] = tuple(UNDEF if i is UNDEF else (x + y)[i.args[0]] for i in
                             (msk if msk is not UNDEF else [bv(0, 32)] * mt.n))
        fr.idx += 1

    def i_call(self, st, fr, ins):
        _, dst, rty, callee, args = ins
        if callee[0] == 'reg':
            f = fr.regs[callee[1]]
            if not isinstance(f, Fn):
                raise Unsupported('indirect call')
            name = f.name
        else:
            name = callee[1]
        if name.startswith('llvm.'):
            r = self.models.intrinsic(self, st, fr, name, rty, args)
            if dst is not None:
                fr.regs[dst] = r
            fr.idx += 1
            return
        h = self.models.lookup(name)
        if h is not None:
            vals = [self.defd(self.val(fr, t, v), t) for t, v in args]
            r = h(self, st, vals)
            if dst is not None:
                fr.regs[dst] = r
            fr.idx += 1
            return
        if name == 'vp_missing':
            raise Unsupported('a function that does not compile')
        fn = self.getfn(name)
        if fn is None:
            if self.mod.is_noreturn(name):
                raise Killed('panic', name)
            raise Unsupported('call of ' + name)
        if self.mod.is_noreturn(name) and self.models.is_panic(name):
            raise Killed('panic', name)
        if len(st.frames) > 200:
            raise Unsupported('call depth')
        nf = Frame(fn, dst)
        for (t, nm), (at, av) in zip(fn.params, args):
            nf.regs[nm] = self.val(fr, at, av)
        st.frames.append(nf)

    def i_asm(self, st, fr, ins):
        raise Unsupported('inline asm')
