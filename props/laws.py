"""Laws of the random draws, and what a value made from them must satisfy."""
import random as _rnd
import num
from dists import *

# continuous draws: kind -> (interior of the support, distribution function)
one = R(1)
LAW = {
    0: ('uniform', lambda p, x: [gt(x, Z), lt(x, ONE)], lambda p, x: x),
    5: ('uniform', lambda p, x: [gt(x, Z), lt(x, ONE)], lambda p, x: x),
    6: ('uniform', lambda p, x: [gt(x, Z), lt(x, ONE)], lambda p, x: x),
    1: ('uniform', lambda p, x: [gt(x, p[0]), lt(x, p[1])], lambda p, x: (x - p[0]) / (p[1] - p[0])),
    10: ('normal', lambda p, x: [], lambda p, x: Phi((x - p[0]) / p[1])),
    11: ('exponential', lambda p, x: [gt(x, Z)], lambda p, x: 1 - exp(-(p[0] * x))),
    12: ('gamma', lambda p, x: [gt(x, Z)], lambda p, x: P(p[0], x / p[1])),
    13: ('beta', lambda p, x: [gt(x, Z), lt(x, ONE)], lambda p, x: IB(x, p[0], p[1])),
    14: ('cauchy', lambda p, x: [], lambda p, x: R(1, 2) + atan((x - p[0]) / p[1]) / PI),
    15: ('chi_sq', lambda p, x: [gt(x, Z)], lambda p, x: P(p[0] / 2, x / 2)),
    16: ('f_dist', lambda p, x: [gt(x, Z)], lambda p, x: IB(p[0] * x / (p[0] * x + p[1]), p[0] / 2, p[1] / 2)),
    17: ('lognormal', lambda p, x: [gt(x, Z)], lambda p, x: Phi((ln(x) - p[0]) / p[1])),
    18: ('pareto', lambda p, x: [gt(x, p[0])], lambda p, x: 1 - pw(p[0] / x, p[1])),
    19: ('student_t', lambda p, x: [], lambda p, x: R(1, 2) + x * G((p[0] + 1) / 2) / (sq(PI * p[0]) * G(p[0] / 2)) * tm.fun('sf_hyp2f1', -(x * x) / p[0], R(1, 2), (p[0] + 1) / 2, R(3, 2))),
    21: ('weibull', lambda p, x: [gt(x, Z)], lambda p, x: 1 - exp(-pw(x / p[0], p[1]))),
}
TRI = 20


def lift(ps): return [tm.lift(p) for p in ps]


def interior(draws):
    """draws on the boundary of their range have probability zero"""
    r = []
    for k, kind, v, p in draws:
        if k == 'f' and kind in LAW:
            r += LAW[kind][1](lift(p), v)
    return r


def way(c, score):
    """which way round the draw is used: the same on every path of a case"""
    mem = getattr(c, 'mem', {})
    if 'way' not in mem and score:
        mem['way'] = score > 0
    return mem.get('way', score >= 0)


def orient(c, I, F, H):
    """increasing or decreasing transformation, settled at random points (a wrong
    guess makes the obligation fail, never pass)"""
    rng = _rnd.Random(7)
    vs = {t.args[0] for t in tm.walk([F, H]) if t.op == 'var'}
    score = 0
    for _ in range(40):
        env = {v: num.mpf(rng.uniform(0.2, 0.8)) for v in vs}
        try:
            x, y = num.evaluate([F, H], env)
        except Exception:
            continue
        if abs(x - y) < 1e-9:
            score += 1
        elif abs(x - 1 + y) < 1e-9:
            score -= 1
    return H if way(c, score) else 1 - H


def agree(pairs, lo=0.2, hi=0.8):
    """do both members of every pair have the same value at random points?"""
    rng = _rnd.Random(11)
    flat = [t for p in pairs for t in p]
    vs = {t.args[0] for t in tm.walk(flat) if t.op == 'var'}
    for _ in range(40):
        env = {v: num.mpf(rng.uniform(lo, hi)) for v in vs}
        try:
            xs = num.evaluate(flat, env)
        except Exception:
            continue
        if any(abs(x - y) > 1e-9 * (1 + abs(y)) for x, y in zip(xs[::2], xs[1::2])):
            return False
    return True


def gaussian(c, vals, mu, L, n, wrap=lambda t: t, unwrap=lambda t: t):
    """vals = wrap(mu + M e) for standard normals e and a factor M of the covariance L L^t"""
    if len(c.draws) < n:
        return [HOLDS('one draw per dimension', FALSE)]
    if len(c.draws) != n or any(dr[1] != 10 for dr in c.draws):
        return [OPEN('the law of the value is that of the distribution (drawn another way)')]
    xs = [dr[2] for dr in c.draws]
    loc, sc = [lift(dr[3])[0] for dr in c.draws], [lift(dr[3])[1] for dr in c.draws]
    e = [(x - l) / s for x, l, s in zip(xs, loc, sc)]
    canon = [wrap(mu[i] + fsum([R(0)] + [L[i][j] * e[j] for j in range(i + 1)])) for i in range(n)]
    low = [(i, j) for i in range(n) for j in range(i + 1)]
    if any(x.op != 'var' for x in xs):      # numbers: the usual factor
        return [EQ('coordinate %d' % i, vals[i], canon[i]) for i in range(n)] + [EQ('spread %d,%d' % ij, vals[ij[0]], canon[ij[0]]) for ij in low]
    # a factor chosen by looking at the draws is no factor
    pc = getattr(c, 'pc', ())
    on = [t for t in pc if any(y in xs for y in tm.walk([t]) if y.op == 'var')]
    split = bool(on) and always([t for t in pc if t not in on], ands(on)) is False
    if split or agree(list(zip(vals, canon))):
        return [EQ('coordinate %d' % i, vals[i], canon[i]) for i in range(n)] + [EQ('spread %d,%d' % ij, R(0), R(0)) for ij in low]
    at = lambda k: [unwrap(t) for t in tm.subst(vals, {x.id: l + s if j == k else l for j, (x, l, s) in enumerate(zip(xs, loc, sc))})]
    v0 = at(None)
    M = list(zip(*[[a - b for a, b in zip(at(k), v0)] for k in range(n)]))
    return [EQ('coordinate %d' % i, unwrap(vals[i]), mu[i] + fsum(M[i][k] * e[k] for k in range(n))) for i in range(n)] + \
        [EQ('spread %d,%d' % (i, j), fsum(M[i][k] * M[j][k] for k in range(n)), fsum(L[i][k] * L[j][k] for k in range(j + 1))) for i, j in low]


def onefrom(c, fam, cdf, p, v, draw):
    """the value v made from one draw has the law given: a list of (label, x, y) equalities, or None when it cannot be told"""
    k, kind, x, dp = draw
    if kind not in LAW:
        return None
    name, _, H = LAW[kind]
    dp = lift(dp)
    if fam == 'normal':
        if kind != 10:
            return None
        d = sq(p[1]) * (x - dp[0]) / dp[1]
        up = x.op != 'var' or not agree([(v, p[0] - d)])
        return v, p[0] + d if way(c, 1 if up else -1) else p[0] - d
    F = cdf(p, v)
    return F, orient(c, None, F, H(dp, x))


def always(pc, t):
    """is t true at every random point of the path tried? None: no point was found"""
    rng = _rnd.Random(13)
    vs = {x.args[0] for x in tm.walk(list(pc) + [t]) if x.op == 'var'}
    seen = 0
    for i in range(400):
        try:
            *ps, v = num.evaluate(list(pc) + [t], {x: num.mpf(rng.uniform(0, 1) if i % 2 else rng.uniform(*rng.choice([(0, 1), (-1, 0), (0, 4), (-4, 0)]))) for x in vs})
        except Exception:
            continue
        if all(ps):
            seen += 1
            if not v:
                return False
            if seen > 30:
                break
    return True if seen else None


def either(c, up, down, skip=FALSE):
    """up, or else down when only that one is true all over the path (a uniform number may be used either way round); skip: a null event"""
    pc = getattr(c, 'pc', None)
    u, d = (None, None) if pc is None else (always(pc, up), always(pc, down))
    if 'way' not in getattr(c, 'mem', {}) and (u is None or d is None):
        return bor(skip, band(up, down) if pc is None else bor(up, down))
    return bor(skip, up if way(c, bool(u) - bool(d)) else down)
