"""Models of what is outside the encoded IR: LLVM intrinsics, the allocator,
libm, special functions (opaque symbols), random draws, BLAS/LAPACK."""
import re

import term as tm
from term import T, bv, f64, boolc, ibin, icmp, ite, mk, band, bor, bnot
from ir import I, DOUBLE, PTR

F1 = {'exp', 'log', 'log2', 'log10', 'exp2', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh',
      'tanh', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'roundeven', 'fabs'}


def vp():
    import exec as ex
    return ex


def intrinsic(ex, st, fr, name, rty, args):
    p = name.split('.')
    op = p[1]
    if op in ('lifetime', 'assume', 'experimental', 'dbg', 'invariant', 'donothing', 'prefetch', 'sideeffect'):
        return None
    val = lambda i: ex.term(fr, args[i][0], args[i][1])
    if op == 'fabs' and rty.k == 'double':
        x = val(0)
        if ex.split_select and x.op != 'c':
            return tm.fneg(x) if ex.decide(st, tm.fcmp('olt', x, f64(0.0))) else x
        return mk('fabs', (x,), 'f') if x.op != 'c' else f64(abs(tm.fval(x)))
    if op in F1 and rty.k == 'double':
        x = val(0)
        if ex.split_select and op == 'exp' and x.op == 'log' and x.args[0].op in ('sf_gammainc', 'sf_betainc'):
            return x.args[0]        # never negative, and the logarithm of zero comes back to zero
        return f1(op, x)
    if op in F1 and rty.k == 'vec':
        return tuple(f1(op, x) for x in val(0))
    if op == 'pow':
        return mk('pow', (val(0), val(1)), 'f')
    if op == 'powi':
        n = val(1)
        if n.op == 'c':
            return mk('ipow', (val(0), tm.sgn(n.args[0], n.sort)), 'f')
        return mk('powi', (val(0), n), 'f')
    if op in ('fma', 'fmuladd'):
        return tm.fbin('fadd', tm.fbin('fmul', val(0), val(1)), val(2))
    if op in ('maxnum', 'minnum', 'maximumnum', 'minimumnum', 'maximum', 'minimum'):
        a, b = val(0), val(1)
        mx = op.startswith('max')
        if ex.split_select:
            # NaN-free in the real reading
            return (a if ex.decide(st, tm.fcmp('ogt' if mx else 'olt', a, b)) else b)
        c = tm.fcmp('ogt' if mx else 'olt', a, b)
        r = ite(c, a, b)
        if op in ('maximum', 'minimum'):
            return r
        return ite(tm.fcmp('uno', a, a), b, ite(tm.fcmp('uno', b, b), a, r))
    if op == 'copysign':
        a, b = val(0), val(1)
        if ex.split_select:
            neg = ex.decide(st, tm.fcmp('olt', b, f64(0.0)))
            if a.op == 'c':
                m = f64(abs(tm.fval(a)))
            else:
                m = tm.fneg(a) if ex.decide(st, tm.fcmp('olt', a, f64(0.0))) else a
            return tm.fneg(m) if neg else m
        return mk('copysign', (a, b), 'f')
    if op == 'is' and p[2] == 'fpclass':
        mask = val(1).args[0]
        return mk('fpclass', (val(0), mask), 'b')
    if op in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
        a, b = val(0), val(1)
        s, o = op[0] == 's', op[1:]
        r = ibin(o, a, b)
        ov = {'add': tm.addovf, 'sub': tm.subovf, 'mul': tm.mulovf}[o](s, a, b)
        return (r, ov)
    if op in ('uadd', 'usub') and p[2] == 'sat':
        a, b = val(0), val(1)
        if op == 'usub':
            return ite(icmp('ult', a, b), bv(0, a.sort), ibin('sub', a, b))
        return ite(tm.addovf(False, a, b), bv(-1, a.sort), ibin('add', a, b))
    if op in ('umin', 'umax', 'smin', 'smax'):
        a, b = val(0), val(1)
        if a.op == 'c' and b.op == 'c' or a is b:
            return ibin(op, a, b)
        c = icmp('slt' if op[0] == 's' else 'ult', a, b)
        if ex.split_select:
            lt = ex.decide(st, c)
            return (a if lt else b) if op.endswith('min') else (b if lt else a)
        return ite(c, a, b) if op.endswith('min') else ite(c, b, a)
    if op == 'abs':
        a = val(0)
        return ite(icmp('slt', a, bv(0, a.sort)), ibin('sub', bv(0, a.sort), a), a)
    if op in ('ucmp', 'scmp'):
        a, b = val(0), val(1)
        n = rty.n
        lt = icmp('ult' if op[0] == 'u' else 'slt', a, b)
        return ite(lt, bv(-1, n), ite(icmp('eq', a, b), bv(0, n), bv(1, n)))
    if op in ('fptoui', 'fptosi') and p[2] == 'sat':
        x = val(0)
        if x.op == 'c':
            import math
            v = tm.fval(x)
            n = rty.n
            lo, hi = (0, (1 << n) - 1) if op == 'fptoui' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            if math.isnan(v):
                return bv(0, n)
            if math.isinf(v):
                return bv(hi if v > 0 else lo, n)
            return bv(max(lo, min(hi, int(v))), n)
        if x.op in ('sitofp', 'uitofp') and x.args[0].sort == rty.n == 64:
            # an integer that a double holds exactly comes back unchanged
            y = x.args[0]
            if ex.feas.implied(st.pc, tm.band(bnot(icmp('slt', y, bv(0, 64))), icmp('slt', y, bv(1 << 53, 64)))):
                return y
        return mk(op + 'sat', (x,), rty.n)
    if op in ('memcpy', 'memmove'):
        d, s, n = val(0), val(1), val(2)
        memcpy(ex, st, d, s, ex.concretize(st, n, 0, 512))
        return None
    if op == 'memset':
        d, b, n = val(0), val(1), val(2)
        memset(ex, st, d, b, ex.concretize(st, n, 0, 512))
        return None
    if op in ('expect',):
        return val(0)
    if op == 'trap':
        raise vp().Killed('panic', 'trap')
    if op == 'ctpop':
        a = val(0)
        if a.op == 'c':
            return bv(bin(a.args[0]).count('1'), a.sort)
    if op in ('ctlz', 'cttz'):
        a = val(0)
        if a.op == 'c':
            n, v = a.sort, a.args[0]
            if op == 'ctlz':
                return bv(n - v.bit_length(), n)
            return bv((v & -v).bit_length() - 1 if v else n, n)
    if op in ('fshl', 'fshr'):
        a, b, c = val(0), val(1), val(2)
        if c.op == 'c':
            n = a.sort
            k = c.args[0] % n
            if op == 'fshr':
                k = (n - k) % n
                if k == 0:
                    return b
            if k == 0:
                return a
            return ibin('or', ibin('shl', a, bv(k, n)), ibin('lshr', b, bv(n - k, n)))
    if op == 'load' and p[2] == 'relative':
        # jump/lookup table of 32-bit offsets relative to the table
        base, off = val(0), val(1)
        d = ex.load(st, I(32), ex.padd(base, off if off.op != 'c' else off.args[0]))
        raise vp().Unsupported('load.relative')
    if op == 'vector' and p[2] == 'reduce':
        v = val(len(args) - 1)
        if p[3] in ('fadd', 'fmul'):
            acc = val(0)
            for x in v:
                acc = tm.fbin(p[3], acc, x)
            return acc
        acc = v[0]
        for x in v[1:]:
            if p[3] in ('and', 'or', 'xor', 'add', 'mul'):
                acc = ibin(p[3], acc, x)
            else:
                raise vp().Unsupported(name)
        return acc
    raise vp().Unsupported('intrinsic ' + name)


def f1(op, x):
    if x.op == 'c' and op == 'exp' and tm.fval(x) == float('-inf'):
        return f64(0.0)
    if x.op == 'c' and op in ('floor', 'ceil', 'trunc', 'round'):
        import math
        v = tm.fval(x)
        if math.isfinite(v):
            if op == 'floor':
                return f64(float(math.floor(v)))
            if op == 'ceil':
                return f64(float(math.ceil(v)))
            if op == 'trunc':
                return f64(float(math.trunc(v)))
            return f64(float(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1))
    if x.op == 'c' and op == 'sqrt':
        import math
        v = tm.fval(x)
        if math.isfinite(v) and v >= 0 and math.sqrt(v) ** 2 == v and math.sqrt(v) == int(math.sqrt(v)):
            return f64(math.sqrt(v))
    return mk(op, (x,), 'f')


def memcpy(ex, st, d, s, n):
    if n == 0:
        return
    if not isinstance(d.o, int):
        d = vp().Ptr(d.r, ex.conc_off(st, d, n))
    if not isinstance(s.o, int):
        s = vp().Ptr(s.r, ex.conc_off(st, s, n))
    src = ex.region(st, s.r)
    if s.o < 0 or s.o + n > src.size:
        raise vp().Killed('ub', 'out of bounds copy (read)')
    cells = {}
    i = 0
    while i < n:
        c = src.cells.get(s.o + i)
        if c is not None and i + c[0] <= n:
            cells[i] = c
            i += c[0]
        else:
            k = 8 if (src.raw is not None and n - i >= 8 and
                      not any((s.o + i + j) in src.cells for j in range(-15, 8))) else 1
            v = ex.read(src, s.o + i, k)
            if v is not vp().UNDEF:
                cells[i] = (k, v)
            i += k
    dst = ex.region(st, d.r, True)
    if d.o < 0 or d.o + n > dst.size:
        raise vp().Killed('ub', 'out of bounds copy (write)')
    ex.clear(dst, d.o, n)
    for i, c in cells.items():
        dst.cells[d.o + i] = c


def memset(ex, st, d, b, n):
    if n == 0:
        return
    if not isinstance(d.o, int):
        d = vp().Ptr(d.r, ex.conc_off(st, d, n))
    dst = ex.region(st, d.r, True)
    if d.o < 0 or d.o + n > dst.size:
        raise vp().Killed('ub', 'out of bounds memset')
    ex.clear(dst, d.o, n)
    i = 0
    while i < n:
        s = 8 if n - i >= 8 and b.op == 'c' else 1
        v = bv(int.from_bytes(bytes([b.args[0]]) * s, 'little'), 8 * s) if b.op == 'c' else b
        dst.cells[d.o + i] = (s, v)
        i += s


# ---------------------------------------------------------------- externals
def m_alloc(ex, st, a, zero=False):
    n = ex.concretize(st, a[0], 0, 4096)
    p = ex.new_region(st, n, 'heap')
    if zero:
        memset(ex, st, p, bv(0, 8), n)
    return p


def m_dealloc(ex, st, a):
    p = a[0]
    if p.r is not None and p.r > 0:
        r = ex.region(st, p.r, True)
        r.freed = True
    return None


def m_realloc(ex, st, a):
    p, old, al, new = a
    old, new = ex.concretize(st, old, 0, 4096), ex.concretize(st, new, 0, 4096)
    q = ex.new_region(st, new, 'heap')
    memcpy(ex, st, q, p, min(old, new))
    m_dealloc(ex, st, a)
    return q


def m_draw(ex, st, a):
    k = a[0].args[0]
    v = tm.var('draw%d' % len(st.draws))
    st.draws.append(('f', k, v, a[1:]))
    lim = draw_contract(k, v, a[1:])
    for c in lim:
        st.pc.append(c)
    return v


def draw_contract(k, v, p):
    z, o = f64(0.0), f64(1.0)
    if k in (0,):
        return [tm.fcmp('oge', v, z), tm.fcmp('olt', v, o)]
    if k == 5:
        return [tm.fcmp('ogt', v, z), tm.fcmp('olt', v, o)]
    if k == 6:
        return [tm.fcmp('ogt', v, z), tm.fcmp('ole', v, o)]
    if k == 1:
        return [tm.fcmp('oge', v, p[0]), tm.fcmp('ole', v, p[1])]
    if k in (11, 12, 15, 16, 17, 21, 22, 25, 27):
        return [tm.fcmp('oge', v, z)]
    if k == 10:     # zero itself has probability zero
        return [bnot(tm.fcmp('oeq', v, z))]
    if k == 13:
        return [tm.fcmp('oge', v, z), tm.fcmp('ole', v, o)]
    return []


def m_draw_int(ex, st, a):
    k = a[0].args[0]
    v = tm.var('idraw%d' % len(st.draws), 64)
    st.draws.append(('i', k, v, a[1:]))
    if k == 2:
        st.pc.append(icmp('ule', v, bv(1, 64)))
    elif k == 3:
        st.pc.append(bnot(icmp('slt', v, a[3])))
        st.pc.append(bnot(icmp('slt', a[4], v)))
    elif k in (23,):
        st.pc.append(bnot(icmp('slt', v, bv(0, 64))))
        st.pc.append(bnot(icmp('slt', a[4], v)))
    elif k == 22:   # beyond 2^53 the value is not exact in a double
        st.pc.append(bnot(icmp('slt', v, bv(0, 64))))
        st.pc.append(icmp('slt', v, bv(1 << 53, 64)))
    elif k == 24:
        st.pc.append(bnot(icmp('slt', v, bv(0, 64))))
    return v


def getmat(ex, st, p, n):
    return [ex.defd(ex.load(st, DOUBLE, ex.padd(p, 8 * i)), DOUBLE) for i in range(n)]


def putmat(ex, st, p, xs):
    for i, x in enumerate(xs):
        if x is not None:
            ex.store(st, DOUBLE, x, ex.padd(p, 8 * i))


def ci32(ex, st, p):
    return ex.concretize(st, ex.load(st, I(32), p), 0, 64)


def ch(ex, st, p):
    return chr(ex.concretize(st, ex.load(st, I(8), p), 0, 255)).upper()


fa = lambda x, y: tm.fbin('fadd', x, y)
fs = lambda x, y: tm.fbin('fsub', x, y)
fm = lambda x, y: tm.fbin('fmul', x, y)
fd = lambda x, y: tm.fbin('fdiv', x, y)
sq = lambda x: f1('sqrt', x)


def m_dpotrf(ex, st, a):
    """column-major Cholesky. uplo='U': A = UᵀU, 'L': A = LLᵀ. info = k if the
    leading minor of order k is not positive (no factor then)."""
    uplo, n, lda = ch(ex, st, a[0]), ci32(ex, st, a[1]), ci32(ex, st, a[3])
    m = getmat(ex, st, a[2], lda * n)
    g = (lambda i, j: m[i + j * lda]) if uplo == 'L' else (lambda i, j: m[j + i * lda])   # lower view (i>=j)
    L = {}
    for j in range(n):
        s = g(j, j)
        for k in range(j):
            s = fs(s, fm(L[j, k], L[j, k]))
        if not ex.decide(st, tm.fcmp('ogt', s, f64(0.0))):
            ex.store(st, I(32), bv(j + 1, 32), a[4])
            return None
        L[j, j] = sq(s)
        for i in range(j + 1, n):
            s = g(i, j)
            for k in range(j):
                s = fs(s, fm(L[i, k], L[j, k]))
            L[i, j] = fd(s, L[j, j])
    for (i, j), v in L.items():
        if uplo == 'L':
            m[i + j * lda] = v
        else:
            m[j + i * lda] = v
    putmat(ex, st, a[2], m)
    ex.store(st, I(32), bv(0, 32), a[4])
    return None


def tri(m, lda, n, uplo, diag):
    """n x n matrix (math indexing) of the referenced triangle, column-major"""
    z, o = f64(0.0), f64(1.0)
    A = [[z] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if (uplo == 'U' and i <= j) or (uplo == 'L' and i >= j):
                A[i][j] = o if (diag == 'U' and i == j) else m[i + j * lda]
    return A


def m_dtrtri(ex, st, a):
    uplo, diag, n, lda = ch(ex, st, a[0]), ch(ex, st, a[1]), ci32(ex, st, a[2]), ci32(ex, st, a[4])
    m = getmat(ex, st, a[3], lda * n)
    A = tri(m, lda, n, uplo, diag)
    low = uplo == 'L'
    if not low:
        A = [[A[j][i] for j in range(n)] for i in range(n)]     # transpose: work on lower
    X = {}
    for j in range(n):
        X[j, j] = fd(f64(1.0), A[j][j])
        for i in range(j + 1, n):
            s = None
            for k in range(j, i):
                t = fm(A[i][k], X[k, j])
                s = t if s is None else fa(s, t)
            X[i, j] = fd(tm.fneg(s), A[i][i])
    for (i, j), v in X.items():
        if diag == 'U' and i == j:
            continue
        if low:
            m[i + j * lda] = v
        else:
            m[j + i * lda] = v
    putmat(ex, st, a[3], m)
    ex.store(st, I(32), bv(0, 32), a[5])
    return None


def m_dpotri(ex, st, a):
    uplo, n, lda = ch(ex, st, a[0]), ci32(ex, st, a[1]), ci32(ex, st, a[3])
    m = getmat(ex, st, a[2], lda * n)
    A = tri(m, lda, n, uplo, 'N')
    if uplo == 'U':
        A = [[A[j][i] for j in range(n)] for i in range(n)]
    X = {}
    for j in range(n):
        X[j, j] = fd(f64(1.0), A[j][j])
        for i in range(j + 1, n):
            s = None
            for k in range(j, i):
                t = fm(A[i][k], X[k, j])
                s = t if s is None else fa(s, t)
            X[i, j] = fd(tm.fneg(s), A[i][i])
    for i in range(n):
        for j in range(i + 1):
            s = None
            for k in range(i, n):
                t = fm(X[k, i], X[k, j])
                s = t if s is None else fa(s, t)
            if uplo == 'L':
                m[i + j * lda] = s
            else:
                m[j + i * lda] = s
    putmat(ex, st, a[2], m)
    ex.store(st, I(32), bv(0, 32), a[4])
    return None


def op(m, ld, rows, cols, t):
    """op(A) as rows x cols in math indexing; A column-major with leading dim ld"""
    if t == 'N':
        return [[m[i + j * ld] for j in range(cols)] for i in range(rows)]
    return [[m[j + i * ld] for j in range(cols)] for i in range(rows)]


def m_dgemm(ex, st, a):
    ta, tb = ch(ex, st, a[0]), ch(ex, st, a[1])
    m, n, k = (ci32(ex, st, a[i]) for i in (2, 3, 4))
    al = ex.load(st, DOUBLE, a[5])
    lda, ldb = ci32(ex, st, a[7]), ci32(ex, st, a[9])
    be = ex.load(st, DOUBLE, a[10])
    ldc = ci32(ex, st, a[12])
    A = op(getmat(ex, st, a[6], lda * (k if ta == 'N' else m)), lda, m, k, ta)
    B = op(getmat(ex, st, a[8], ldb * (n if tb == 'N' else k)), ldb, k, n, tb)
    C = getmat(ex, st, a[11], ldc * n)
    for i in range(m):
        for j in range(n):
            s = None
            for q in range(k):
                t = fm(A[i][q], B[q][j])
                s = t if s is None else fa(s, t)
            if not (al.op == 'c' and tm.fval(al) == 1.0):
                s = fm(al, s)
            if not (be.op == 'c' and tm.fval(be) == 0.0):
                s = fa(s, fm(be, C[i + j * ldc]))
            C[i + j * ldc] = s
    putmat(ex, st, a[11], C)
    return None


def m_dtrmv(ex, st, a):
    uplo, t, diag = ch(ex, st, a[0]), ch(ex, st, a[1]), ch(ex, st, a[2])
    n, lda, inc = ci32(ex, st, a[3]), ci32(ex, st, a[5]), ci32(ex, st, a[7])
    A = tri(getmat(ex, st, a[4], lda * n), lda, n, uplo, diag)
    if t != 'N':
        A = [[A[j][i] for j in range(n)] for i in range(n)]
        up = uplo != 'U'
    else:
        up = uplo == 'U'
    x = getmat(ex, st, a[6], (n - 1) * inc + 1)
    y = list(x)
    for i in range(n):
        s = None
        for j in range(n):
            if (up and j >= i) or (not up and j <= i):
                q = fm(A[i][j], x[j * inc])
                s = q if s is None else fa(s, q)
        y[i * inc] = s
    putmat(ex, st, a[6], y)
    return None


def m_dgemv(ex, st, a):
    t = ch(ex, st, a[0])
    m, n = ci32(ex, st, a[1]), ci32(ex, st, a[2])
    al = ex.load(st, DOUBLE, a[3])
    lda, ix = ci32(ex, st, a[5]), ci32(ex, st, a[7])
    be = ex.load(st, DOUBLE, a[8])
    iy = ci32(ex, st, a[10])
    r, c = (m, n) if t == 'N' else (n, m)
    A = op(getmat(ex, st, a[4], lda * n), lda, r, c, t)
    x = getmat(ex, st, a[6], (c - 1) * ix + 1)
    y = getmat(ex, st, a[9], (r - 1) * iy + 1)
    for i in range(r):
        s = None
        for j in range(c):
            q = fm(A[i][j], x[j * ix])
            s = q if s is None else fa(s, q)
        if not (al.op == 'c' and tm.fval(al) == 1.0):
            s = fm(al, s)
        if not (be.op == 'c' and tm.fval(be) == 0.0):
            s = fa(s, fm(be, y[i * iy]))
        y[i * iy] = s
    putmat(ex, st, a[9], y)
    return None


def m_dsymv(ex, st, a):
    uplo, n = ch(ex, st, a[0]), ci32(ex, st, a[1])
    al = ex.load(st, DOUBLE, a[2])
    lda, ix = ci32(ex, st, a[4]), ci32(ex, st, a[6])
    be = ex.load(st, DOUBLE, a[7])
    iy = ci32(ex, st, a[9])
    m = getmat(ex, st, a[3], lda * n)
    A = tri(m, lda, n, uplo, 'N')
    A = [[A[i][j] if ((uplo == 'U') == (i <= j)) or i == j else A[j][i] for j in range(n)] for i in range(n)]
    x = getmat(ex, st, a[5], (n - 1) * ix + 1)
    y = getmat(ex, st, a[8], (n - 1) * iy + 1)
    for i in range(n):
        s = None
        for j in range(n):
            q = fm(A[i][j], x[j * ix])
            s = q if s is None else fa(s, q)
        if not (al.op == 'c' and tm.fval(al) == 1.0):
            s = fm(al, s)
        if not (be.op == 'c' and tm.fval(be) == 0.0):
            s = fa(s, fm(be, y[i * iy]))
        y[i * iy] = s
    putmat(ex, st, a[8], y)
    return None


def m_ddot(ex, st, a):
    n, ix, iy = ci32(ex, st, a[0]), ci32(ex, st, a[2]), ci32(ex, st, a[4])
    x = getmat(ex, st, a[1], (n - 1) * ix + 1)
    y = getmat(ex, st, a[3], (n - 1) * iy + 1)
    s = f64(0.0)
    for i in range(n):
        s = fa(s, fm(x[i * ix], y[i * iy]))
    return s


def m_memcmp(ex, st, a):
    n = ex.concretize(st, a[2], 0, 512)
    x = [ex.load(st, I(8), ex.padd(a[0], i)) for i in range(n)]
    y = [ex.load(st, I(8), ex.padd(a[1], i)) for i in range(n)]
    eq = tm.ands([icmp('eq', p, q) for p, q in zip(x, y)])
    return ite(eq, bv(0, 32), bv(1, 32))


def lib1(name):
    return lambda ex, st, a: f1(name, a[0])


EXACT = {
    'vp_draw': m_draw, 'vp_draw_int': m_draw_int,
    'dpotrf_': m_dpotrf, 'dtrtri_': m_dtrtri, 'dpotri_': m_dpotri, 'dgemm_': m_dgemm, 'dtrmv_': m_dtrmv,
    'dgemv_': m_dgemv, 'dsymv_': m_dsymv, 'ddot_': m_ddot,
    'bcmp': m_memcmp, 'memcmp': m_memcmp,
    'cbrt': lambda ex, st, a: mk('cbrt', (a[0],), 'f'),
    'expm1': lambda ex, st, a: tm.fbin('fsub', mk('exp', (a[0],), 'f'), f64(1.0)),
    'log1p': lambda ex, st, a: mk('log', (tm.fbin('fadd', f64(1.0), a[0]),), 'f'),
    'hypot': lambda ex, st, a: mk('sqrt', (fa(fm(a[0], a[0]), fm(a[1], a[1])),), 'f'),
    'tgamma': lambda ex, st, a: mk('sf_gamma', (a[0],), 'f'),
    'fmod': lambda ex, st, a: mk('frem', (a[0], a[1]), 'f'),
    'pow': lambda ex, st, a: mk('pow', (a[0], a[1]), 'f'),
    'atan2': lambda ex, st, a: mk('atan2', (a[0], a[1]), 'f'),
}
for _n in ('exp', 'log', 'log2', 'log10', 'exp2', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh',
           'tanh', 'floor', 'ceil', 'round', 'trunc'):
    EXACT[_n] = lib1(_n)

PAT = [
    (re.compile(r'___rust_alloc$'), m_alloc),
    (re.compile(r'___rust_alloc_zeroed$'), lambda ex, st, a: m_alloc(ex, st, a, True)),
    (re.compile(r'___rust_dealloc$'), m_dealloc),
    (re.compile(r'___rust_realloc$'), m_realloc),
    (re.compile(r'___rust_no_alloc_shim_is_unstable'), lambda ex, st, a: None),
]


def lookup(name):
    h = EXACT.get(name)
    if h is not None:
        return h
    if name.startswith('sf_'):
        return lambda ex, st, a: mk(name, tuple(a), 'f')
    for r, h in PAT:
        if r.search(name):
            return h
    return None


def is_panic(name):
    return 'panic' in name or 'unwrap_failed' in name or 'expect_failed' in name
