"""C06: dense linear-algebra kernels under the multivariate normal."""
from common import *

TITLE = 'The Cholesky, triangular-inverse, Gram and matrix-vector kernels are exact'
HELPERS = '''
use crate::normal::linalg as la;
unsafe fn mat<const K: usize>(a: *const f64) -> [[f64; K]; K] {
    let mut r = [[0.0; K]; K];
    for i in 0..K { for j in 0..K { r[i][j] = A(a, i * K + j) } }
    r
}
unsafe fn low<const K: usize>(a: *const f64) -> [[f64; K]; K] {
    let mut r = [[0.0; K]; K];
    for i in 0..K { for j in 0..(i + 1) { r[i][j] = A(a, i * K + j) } }
    r
}
unsafe fn put<const K: usize>(o: *mut f64, m: [[f64; K]; K]) {
    for i in 0..K { for j in 0..K { O(o, i * K + j, m[i][j]) } }
}
'''
CORE = True


def cases(tier):
    out = []
    top = 10 if tier == 'quick' else 14
    for N in range(1, top + 1):
        K = N * N

        def at(c, i, j, N=N):
            return c.a[i * N + j]

        def o(c, i, j, N=N):
            return c.o(i * N + j)

        def L(c, i, j, at=at):
            return at(c, i, j) if j <= i else Z
        posd = lambda c, N=N, at=at: [gt(at(c, i, i), Z) for i in range(N)]
        rng = range(N)
        hint = {'a%d' % (i * N + i): (0.5, 3) for i in rng}
        out.append(RCase('chol_of_llt_%d' % N, '''
            let l = low::<%d>(a);
            let mut m = [[0.0; %d]; %d];
            for i in 0..%d { for j in 0..%d { let mut s = 0.0; for k in 0..(if i < j { i } else { j } + 1) { s += l[i][k] * l[j][k]; } m[i][j] = s; } }
            put(o, la::cholesky(m)); 0''' % (N, N, N, N, N), na=K, no=K, pre=posd, hints=hint,
            post=lambda c, o=o, L=L, N=N: [EQ('factor of L*Lt is L [%d,%d]' % (i, j), o(c, i, j), L(c, i, j))
                                          for i in range(N) for j in range(N)]))
        if N <= 3:
            # any symmetric positive definite matrix, only its pivots constrained
            def spd(c, N=N, at=at):
                if N == 1: return [gt(at(c, 0, 0), Z)]
                p = [gt(at(c, 0, 0), Z), gt(at(c, 0, 0) * at(c, 1, 1) - at(c, 1, 0) * at(c, 1, 0), Z)]
                if N == 3:
                    a, b, d, e, f, g = at(c, 0, 0), at(c, 1, 0), at(c, 1, 1), at(c, 2, 0), at(c, 2, 1), at(c, 2, 2)
                    p.append(gt(a * (d * g - f * f) - b * (b * g - f * e) + e * (b * f - d * e), Z))
                return p

            def post(c, N=N, o=o, at=at):
                r = []
                for i in range(N):
                    for j in range(N):
                        if j > i:
                            r.append(EQ('upper triangle is zero [%d,%d]' % (i, j), o(c, i, j), 0))
                        else:
                            r.append(EQ('L*Lt = A [%d,%d]' % (i, j), fsum(o(c, i, k) * o(c, j, k) for k in range(j + 1)), at(c, i, j)))
                    r.append(HOLDS('positive diagonal %d' % i, gt(o(c, i, i), Z)))
                return r
            out.append(RCase('chol_spd_%d' % N, '''
                let mut m = low::<%d>(a);
                for i in 0..%d { for j in i + 1..%d { m[i][j] = m[j][i]; } }
                put(o, la::cholesky(m)); 0''' % (N, N, N), na=K, no=K, pre=spd, hints=hint, post=post))
        out.append(RCase('inverse_lt_%d' % N, 'put(o, la::inverse_lt(low::<%d>(a))); 0' % N, na=K, no=K, hints=hint,
                         pre=lambda c, N=N, at=at: [bnot(eqf(at(c, i, i), Z)) for i in range(N)],
                         post=lambda c, N=N, o=o, L=L: [
                             EQ('L*inv = I [%d,%d]' % (i, j), fsum(L(c, i, k) * o(c, k, j) for k in range(N)), int(i == j))
                             for i in range(N) for j in range(N)] + [
                             EQ('upper triangle stays zero [%d,%d]' % (i, j), o(c, i, j), 0) for i in range(N) for j in range(i + 1, N)]))
        out.append(RCase('gram_%d' % N, 'put(o, la::mm_square(&mat::<%d>(a))); 0' % N, na=K, no=K,
                         post=lambda c, N=N, o=o, at=at: [
                             EQ('Mt*M [%d,%d]' % (i, j), o(c, i, j), fsum(at(c, k, i) * at(c, k, j) for k in range(N)))
                             for i in range(N) for j in range(N)]))
        out.append(RCase('mv_%d' % N, '''let mut v = [0.0; %d]; for i in 0..%d { v[i] = A(a, %d + i) }
            let r = la::mv_mult(&low::<%d>(a), v); for i in 0..%d { O(o, i, r[i]) } 0''' % (N, N, K, N, N), na=K + N, no=N,
            post=lambda c, N=N, K=K, L=L: [EQ('L*v [%d]' % i, c.o(i), fsum(L(c, i, k) * c.a[K + k] for k in range(N)))
                                           for i in range(N)]))
        out.append(RCase('precision_%d' % N, '''
            let l = low::<%d>(a); put(o, la::mm_square(&la::inverse_lt(l))); 0''' % N, na=K, no=K, pre=posd, hints=hint,
            post=lambda c, N=N, o=o, L=L: [
                EQ('(L*Lt)*P = I [%d,%d]' % (i, j),
                   fsum(fsum(L(c, i, p) * L(c, k, p) for p in range(min(i, k) + 1)) * o(c, k, j) for k in range(N)), int(i == j))
                for i in range(N) for j in range(N)]) if N <= 4 else None)
    return [c for c in out if c]


BOUNDS = ['every real matrix of order 1..10 (quick) / 1..14 (thorough); general positive-definite input of the factorisation up to order 3, '
          'L*Lt-parametrised up to the full order; the composed precision up to order 4']
ASSUME = ['real arithmetic (rounding not modelled)', 'BLAS/LAPACK do what their documentation says; the models used are compared '
          'with the installed OpenBLAS on concrete matrices in every run']
