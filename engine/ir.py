"""Parser for the textual LLVM IR that rustc emits (the subset rustc produces)."""
import re
import struct

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
  | (?P<meta>!(?:"[^"]*"|[\w.]*))
  | (?P<attr>\#\d+)
  | (?P<hex>f?0x[HKLMR]?[0-9A-Fa-f]+)
  | (?P<num>[-+]?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
  | (?P<id>[-+]?[A-Za-z_][\w.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        out.append((m.lastgroup, m.group()))
    return out


class IRError(Exception):
    pass


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'elems', 'packed')

    def __init__(self, k, n=0, elems=(), packed=False):
        self.k, self.n, self.elems, self.packed = k, n, tuple(elems), packed

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k in ('arr', 'vec'):
            return '%s[%d x %r]' % (self.k, self.n, self.elems[0])
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        return self.k

    def size(self):
        k = self.k
        if k == 'int':
            b = (self.n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s if self.n <= 128 else b
        if k == 'double' or k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return self.n * self.elems[0].size()
        if k == 'vec':
            return self.n * self.elems[0].size()
        if k == 'struct':
            off, al = 0, 1
            for e in self.elems:
                a = 1 if self.packed else e.align()
                al = max(al, a)
                off = (off + a - 1) // a * a + e.size()
            return (off + al - 1) // al * al
        if k == 'void':
            return 0
        raise IRError('size of %r' % self)

    def align(self):
        k = self.k
        if k == 'int':
            return min(self.size(), 16)
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return self.elems[0].align()
        if k == 'vec':
            return self.size()
        if k == 'struct':
            return 1 if self.packed or not self.elems else max(e.align() for e in self.elems)
        raise IRError('align of %r' % self)

    def offset(self, i):
        if self.k == 'arr' or self.k == 'vec':
            return i * self.elems[0].size()
        off = 0
        for j, e in enumerate(self.elems):
            a = 1 if self.packed else e.align()
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += e.size()
        raise IRError('offset')

    def elem(self, i):
        return self.elems[0] if self.k in ('arr', 'vec') else self.elems[i]


_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


DOUBLE, FLOAT, PTR, VOID = Ty('double'), Ty('float'), Ty('ptr'), Ty('void')

PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'captures',
                     'initializes', 'nofpclass', 'elementtype', 'align', 'memory', 'byref', 'inalloca',
                     'preallocated', 'vscale_range', 'allocsize', 'alignstack', 'dead_on_return'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def is_type(self):
        s, k = self.peek(), self.kind()
        if s is None:
            return False
        if k == 'id':
            return bool(re.fullmatch(r'i\d+', s)) or s in ('double', 'float', 'ptr', 'void', 'half', 'label',
                                                          'metadata', 'fp128', 'x86_fp80', 'bfloat')
        return s in ('[', '{', '<') or (k == 'loc' and s in self.mod.named)

    def type(self):
        s = self.next()
        if s == '[':
            n = int(self.next())
            self.expect('x')
            t = Ty('arr', n, [self.type()])
            self.expect(']')
        elif s == '{':
            t = self._struct('}', False)
        elif s == '<':
            if self.accept('{'):
                t = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                t = Ty('vec', n, [self.type()])
                self.expect('>')
        elif re.fullmatch(r'i\d+', s):
            t = I(int(s[1:]))
        elif s == 'double':
            t = DOUBLE
        elif s == 'float':
            t = FLOAT
        elif s == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.skip_parens()
        elif s == 'void':
            t = VOID
        elif s in ('label', 'metadata', 'half', 'fp128', 'x86_fp80', 'bfloat'):
            t = Ty(s)
        elif s in self.mod.named:
            t = self.mod.named[s]
        else:
            raise IRError('type? %r in %s' % (s, ' '.join(x[1] for x in self.t)))
        return t

    def _struct(self, end, packed):
        el = []
        if not self.accept(end):
            while True:
                el.append(self.type())
                if self.accept(end):
                    break
                self.expect(',')
        return Ty('struct', 0, el, packed)

    def attrs(self):
        while self.kind() in ('id', 'str') and not self.is_type() or self.peek() in ('align',):
            s = self.peek()
            if s in ('undef', 'poison', 'null', 'true', 'false', 'zeroinitializer', 'none', 'getelementptr',
                     'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sub', 'add', 'splat', 'asm', 'icmp', 'inbounds'):
                return
            if re.fullmatch(r'[-+]?(inf|qnan|snan|nan).*', s):
                return
            self.next()
            if self.peek() == '(' and (s in PARAM_ATTRS_PAREN or self.mod_attr(s)):
                self.skip_parens()
            elif s == 'align' and self.kind() == 'num':
                self.next()

    def mod_attr(self, s):
        return s not in ()

    # values: ('reg', name) | ('glob', name) | ('int', v) | ('f', bits) | ('null',) | ('undef',)
    #         | ('zero',) | ('agg', [(ty,val)...]) | ('str', bytes) | ('ce', op, ...)
    def value(self, ty):
        k = self.kind()
        s = self.next()
        if k == 'loc':
            return ('reg', s)
        if k == 'glob':
            return ('glob', unq(s))
        if s == 'null':
            return ('null',)
        if s in ('undef', 'poison'):
            return ('undef',)
        if s == 'zeroinitializer' or s == 'none':
            return ('zero',)
        if s == 'true':
            return ('int', 1)
        if s == 'false':
            return ('int', 0)
        if k == 'str':
            return ('str', unescape(s))
        if k in ('num', 'hex') or re.fullmatch(r'[-+]?(inf|qnan|snan|nan).*', s):
            return self.number(ty, s)
        if s == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('agg', [(t, v)] * ty.n)
        if s in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[s]
            pk = s == '<' and self.accept('{')
            if pk:
                close = '}'
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if pk:
                self.expect('>')
            return ('agg', el)
        if s == 'getelementptr':
            while self.kind() == 'id' and not self.is_type():
                w = self.next()
                if w == 'inrange':
                    self.skip_parens()
            self.expect('(')
            st = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('ce', 'gep', st, base, idx)
        if s in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast', 'ptrtoaddr'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', s, t, v, t2)
        if s in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.kind() == 'id' and not self.is_type():
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('ce', s, t, a, b)
        raise IRError('value? %r %r in %s' % (k, s, ' '.join(x[1] for x in self.t)))

    def number(self, ty, s):
        if ty.k == 'double':
            if re.fullmatch(r'f?0x[0-9A-Fa-f]+', s):
                return ('f', int(s.lstrip('f')[2:], 16))
            m = s.lstrip('+')
            neg = m.startswith('-')
            mm = m.lstrip('-')
            if mm == 'inf':
                return ('f', 0xfff0000000000000 if neg else 0x7ff0000000000000)
            if mm.startswith('qnan') or mm.startswith('nan'):
                return ('f', 0xfff8000000000000 if neg else 0x7ff8000000000000)
            return ('f', struct.unpack('<Q', struct.pack('<d', float(s)))[0])
        if ty.k == 'float':
            return ('f32', s)
        if ty.k == 'int':
            return ('int', int(s, 0) & ((1 << ty.n) - 1))
        raise IRError('number for %r' % ty)


def unq(s):
    n = s[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def unescape(s):
    if s.startswith('c'):
        s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None
        self.lines = None
        self.parsed = False


META = re.compile(r'!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DILexicalBlock|DILexicalBlockFile|DIFile)\((.*)\)$')


class Module:
    def __init__(self, text):
        self.named, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self.gtext = {}
        self.noreturn_attrs = set()
        lines = text.split('\n')
        i, n = 0, len(lines)
        deferred = []
        self.meta = {}
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                if body.strip() != 'opaque':
                    self.named[nm] = P(tokenize(body), self).type()
            elif ln.startswith('@'):
                deferred.append(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('!'):
                m = META.match(ln)
                if m:
                    self.meta[int(m.group(1))] = (m.group(2), m.group(3))
            elif ln.startswith('declare'):
                self._decl(ln)
            elif ln.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                if m and re.search(r'\bnoreturn\b', m.group(2)):
                    self.noreturn_attrs.add(m.group(1))
            i += 1
        for ln in deferred:
            m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
            if m:
                nm = m.group(1)
                self.gtext[nm[1:-1] if nm.startswith('"') else nm] = m.group(2)

    def global_init(self, name):
        """-> (type, value or None)"""
        if name in self.globals:
            return self.globals[name]
        if name not in self.gtext:
            return None
        body = self.gtext[name]
        p = P(tokenize(body), self)
        while not p.is_type() or p.peek(0) == 'ptr' and False:
            w = p.next()
            if w == 'alias':
                raise IRError('alias')
            if p.peek() == '(':
                p.skip_parens()
        ty = p.type()
        val = None
        if p.peek() not in (None, ','):
            val = p.value(ty)
        self.globals[name] = (ty, val)
        return self.globals[name]

    def _sig(self, ln):
        p = P(tokenize(ln), self)
        p.next()
        while not p.is_type():
            w = p.next()
            if p.peek() == '(':
                p.skip_parens()
            elif w == 'align':
                p.next()
        ret = p.type()
        p.attrs()
        while p.kind() != 'glob':
            p.next()
        name = unq(p.next())
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    pass
                else:
                    t = p.type()
                    p.attrs()
                    nm = p.next() if p.kind() == 'loc' else None
                    params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        rest = [x[1] for x in p.t[p.i:]]
        return name, ret, params, rest

    def _func(self, head, body):
        name, ret, params, rest = self._sig(head)
        f = Func(name, ret, params)
        f.lines = body
        f.attrs = [a for a in rest if a.startswith('#')]
        self.funcs[name] = f

    def _decl(self, ln):
        try:
            name, ret, params, rest = self._sig(ln)
        except (IRError, IndexError):
            return
        self.decls[name] = (ret, params, [a for a in rest if a.startswith('#')])

    def source(self, ids):
        """where the instructions with these debug locations come from: ({(file, line, function)}, {(file, line)})"""
        fns, lines, todo, done = set(), set(), list(ids), set()

        def ref(t, k):
            m = re.search(r'\b%s: !(\d+)' % k, t)
            return int(m.group(1)) if m else None

        def num(t):
            m = re.search(r'\bline: (\d+)', t)
            return int(m.group(1)) if m else 0

        def file(i):
            m = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', self.meta.get(i, ('', ''))[1])
            return m.group(1) if m and m.group(2).endswith('/ir') else ''
        while todo:
            i = todo.pop()
            if i in done or i not in self.meta:
                continue
            done.add(i)
            t = self.meta[i][1]
            todo += [x for x in (ref(t, 'inlinedAt'),) if x is not None]
            s, f = ref(t, 'scope'), None
            while s in self.meta and self.meta[s][0] != 'DISubprogram':
                f = f or file(ref(self.meta[s][1], 'file'))
                s = ref(self.meta[s][1], 'scope')
            if s not in self.meta:
                continue
            u = self.meta[s][1]
            g = file(ref(u, 'file'))
            m = re.search(r'\bname: "([^"]*)"', u)
            fns.add((g, num(u), m.group(1) if m else '?'))
            lines.add((f or g, num(t)))
        return fns, lines

    def get(self, name):
        f = self.funcs.get(name)
        if f is not None and not f.parsed:
            self._parse_body(f)
        return f

    def is_noreturn(self, name):
        d = self.decls.get(name)
        if d:
            return any(a in self.noreturn_attrs for a in d[2])
        f = self.funcs.get(name)
        if f:
            return any(a in self.noreturn_attrs for a in f.attrs)
        return False

    def _parse_body(self, f):
        cur = None
        pend = None
        for i, (t, nm) in enumerate(f.params):
            if nm is None:
                f.params[i] = (t, '%%%d' % i)
        first = True
        for ln in f.lines:
            if not ln or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                lab = '%' + m.group(1)
                cur = []
                f.blocks[lab] = cur
                if first:
                    f.entry = lab
                    first = False
                continue
            if first:
                n = sum(1 for t, nm in f.params if re.fullmatch(r'%\d+', nm))
                f.entry = '%%%d' % n
                cur = []
                f.blocks[f.entry] = cur
                first = False
            s = ln.strip()
            if pend is not None:
                pend += ' ' + s
                if s.startswith(']'):
                    s, pend = pend, None
                else:
                    continue
            elif s.startswith('switch') and not s.endswith(']'):
                if re.search(r'\]\s*(,|$)', s) is None:
                    pend = s
                    continue
            if s.startswith('#dbg'):
                continue
            cur.append(s)
        for lab in f.blocks:
            f.blocks[lab] = [None if x is None else x for x in f.blocks[lab]]
        f.raw = f.blocks
        f.blocks = {lab: LazyBlock(self, b) for lab, b in f.raw.items()}
        f.parsed = True

    # -- one instruction -> tuple
    def inst(self, s):
        s0 = s
        s = re.sub(r'(, )?![\w.]+ !\d+', '', s)
        s = re.sub(r', !\w[^,]*$', '', s)
        p = P(tokenize(s), self)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'ret':
            t = p.type()
            return ('ret', t, None if t.k == 'void' else p.value(t))
        if op == 'br':
            if p.accept('label'):
                return ('br', p.next())
            p.expect('i1')
            c = p.value(I(1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return ('cbr', c, a, p.next())
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cs.append((cv[1], p.next()))
            return ('switch', t, v, d, cs)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'phi':
            self._flags(p)
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, t, {lab: v for v, lab in inc})
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = ('int', 1)
            if p.accept(',') and p.is_type():
                nt = p.type()
                n = p.value(nt)
            return ('alloca', dst, t, n)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, t, p.value(PTR))
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return ('store', t, v, p.value(PTR))
        if op == 'getelementptr':
            while p.kind() == 'id' and not p.is_type():
                w = p.next()
                if p.peek() == '(':
                    p.skip_parens()
            st = p.type()
            p.expect(',')
            bt = p.type()
            base = p.value(bt)
            idx = []
            while p.accept(','):
                t = p.type()
                idx.append((t, p.value(t)))
            return ('gep', dst, st, base, idx)
        if op in ('icmp', 'fcmp'):
            self._flags(p)
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return (op, dst, pred, t, a, p.value(t))
        if op == 'select':
            self._flags(p)
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            return ('select', dst, ct, c, t, a, p.value(t))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or',
                  'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self._flags(p)
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('bin', dst, op, t, a, p.value(t))
        if op == 'fneg':
            self._flags(p)
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
                  'bitcast', 'fpext', 'fptrunc', 'addrspacecast', 'ptrtoaddr'):
            self._flags(p)
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op == 'freeze':
            t = p.type()
            return ('freeze', dst, t, p.value(t))
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return ('extractvalue', dst, t, v, ix)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = p.value(et)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return ('insertvalue', dst, t, v, et, ev, ix)
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', dst, t, v, it, p.value(it))
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = p.value(et)
            p.expect(',')
            it = p.type()
            return ('insertelement', dst, t, v, et, ev, it, p.value(it))
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            p.expect(',')
            mt = p.type()
            return ('shuffle', dst, t, a, b, mt, p.value(mt))
        if op == 'call':
            if p.peek() == 'asm' or ' asm ' in s:
                return ('asm', dst, s0)
            while not p.is_type():
                w = p.next()
                if p.peek() == '(':
                    p.skip_parens()
                elif w == 'align':
                    p.next()
            t = p.type()
            if p.peek() == '(':
                p.skip_parens()   # function type
            p.attrs()
            k = p.kind()
            callee = p.next()
            if k == 'glob':
                callee = ('glob', unq(callee))
            elif k == 'loc':
                callee = ('reg', callee)
            else:
                raise IRError('callee ' + s0)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    if at.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                        args.append((at, ('undef',)))
                    else:
                        p.attrs()
                        args.append((at, p.value(at)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            return ('call', dst, t, callee, args)
        if op == 'fence':
            return ('nop',)
        raise IRError('instruction ' + s0)

    def _flags(self, p):
        while p.kind() == 'id' and p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'fast', 'nnan',
                                                'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds'):
            p.next()


class LazyBlock:
    def __init__(self, mod, lines):
        self.mod, self.lines, self.ins = mod, lines, [None] * len(lines)

    def __getitem__(self, i):
        x = self.ins[i]
        if x is None:
            x = self.ins[i] = self.mod.inst(self.lines[i])
        return x

    def __len__(self):
        return len(self.lines)
