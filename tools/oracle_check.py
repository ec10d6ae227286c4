#!/usr/bin/env python3-vt
"""Cross-checks the formulas of props/dists.py against each other by numerical
integration: the oracle itself is what is tested here, not the crate."""
import os, sys, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/props']
import mpmath as mp
import num, term as tm
from dists import *
mp.mp.dps = 20
rng = random.Random(5)
R_ = tm.rat
from fractions import Fraction as Fr


def val(t):
    r = num.evaluate([tm.lift(t)], {})[0]
    return r


def ok(conds):
    return all(bool(val(c)) for c in conds)


def pick(spec, p, *x):
    if spec is None:
        return None
    if isinstance(spec, list):
        for c, v in spec:
            if ok(c(p, *x)):
                return v(p, *x)
        return None
    if isinstance(spec, tuple):
        return spec[1](p, *x) if ok(spec[0](p, *x)) else None
    return spec(p, *x)


NCMP = [0]
def close(a, b, tol=1e-6):
    NCMP[0] += 1
    return abs(a - b) <= tol * (1 + abs(b))


bad = 0
def say(*a):
    global bad
    bad += 1
    print('MISMATCH', *a, flush=True)


def q(lo, hi):
    return R_(Fr(rng.randint(int(lo * 100), int(hi * 100)), 100))


def params(d, f):
    for _ in range(200):
        p = []
        for i, k in enumerate(d.kinds):
            if i in f: p.append(R_(f[i]))
            elif k == 'l': p.append(q(-2, 2))
            elif k == 's': p.append(q(0.3, 6))
            elif k == 'p': p.append(q(0.05, 0.95))
            else: p.append(q(0.3, 3))
        if not d.pre_extra or ok(d.pre_extra(p)):
            return p


only = sys.argv[1:]
for d in DISTS:
    if only and d.name not in only: continue
    for f in d.nvals:
        if d.nvals.index(f) > 3 and d.kinds.replace('k', '').replace('n', '') == '' and d.nvals.index(f) % 3: continue
        for rep in range(3 if set(d.kinds) - set('kni') else 1):
            p = params(d, f)
            P_ = [str(tm.show(x)) for x in p]
            try:
                if d.x == 'f':
                    pdf = d.f.get('pdf')
                    if pdf is None: continue
                    # support: scan
                    insup = lambda x: ok(d.sup(p, R_(Fr(x).limit_denominator(10 ** 9)))) if d.sup else True
                    xs = [x / 8 for x in range(-400, 401)]
                    ins = [x for x in xs if insup(x)]
                    lo = -mp.inf if ins[0] == xs[0] else ins[0]
                    hi = mp.inf if ins[-1] == xs[-1] else ins[-1]
                    def edge(a, b):   # a inside, b outside
                        for _ in range(60):
                            m = (a + b) / 2
                            if insup(m): a = m
                            else: b = m
                        return a
                    if lo != -mp.inf: lo = mp.mpf(edge(ins[0], ins[0] - 0.125))
                    if hi != mp.inf: hi = mp.mpf(edge(ins[-1], ins[-1] + 0.125))
                    def dens(x):
                        try: return mp.mpf(val(pick(pdf, p, tm.rat(Fr(str(mp.nstr(x, 25)))))))
                        except (num.Undefined, TypeError): return mp.mpf(0)
                    mid = [m for m in (-30, -6, -3, -2, -1, 0, 0.001, 0.05, 0.3, 1, 2, 4, 10, 40) if lo < m < hi]
                    for i in p:
                        m = float(val(i))
                        if lo < m < hi and all(abs(m - z) > 1e-9 for z in mid): mid.append(m)
                    pts = [lo] + sorted(mid) + [hi]
                    I = lambda g: mp.quad(g, pts, maxdegree=7)
                    tot = I(dens)
                    heavy = not close(tot, 1, 1e-4)
                    if heavy: print('note', d.name, P_, 'total', mp.nstr(tot, 8), flush=True)
                    cdf = d.f.get('cdf')
                    if cdf:
                        for x in (pts[len(pts) // 2], pts[len(pts) // 3 + 1]):
                            if not lo < x < hi: continue
                            x = mp.mpf(x) + mp.mpf('0.0123')
                            if not x < hi: continue
                            g = mp.diff(lambda y: mp.mpf(val(pick(cdf, p, tm.rat(Fr(str(mp.nstr(y, 25))))))), x, h=mp.mpf('1e-6'))
                            if not close(g, dens(x), 1e-4): say(d.name, P_, 'cdf', x, g, dens(x))
                    mean, var = pick(d.f.get('mean'), p), pick(d.f.get('variance'), p)
                    if not heavy:
                        if mean is not None:
                            m = I(lambda x: x * dens(x))
                            if not close(m, val(mean), 1e-3): say(d.name, P_, 'mean', m, val(mean))
                        if var is not None:
                            v = I(lambda x: (x - val(mean)) ** 2 * dens(x))
                            if not close(v, val(var), 5e-3): say(d.name, P_, 'var', v, val(var))
                        for nm, k in (('skewness', 3), ('exk', 4)):
                            s = pick(d.f.get(nm), p)
                            if s is not None and var is not None:
                                w = I(lambda x: (x - val(mean)) ** k * dens(x)) / mp.sqrt(val(var)) ** k - (3 if k == 4 else 0)
                                if not close(w, val(s), 2e-2): say(d.name, P_, nm, w, val(s))
                        e = pick(d.f.get('entropy'), p)
                        if e is not None:
                            w = I(lambda x: -dens(x) * mp.log(dens(x)) if dens(x) > 0 else 0)
                            if not close(w, val(e), 2e-3): say(d.name, P_, 'entropy', w, val(e))
                    md = pick(d.f.get('median'), p)
                    if md is not None and cdf:
                        c = val(pick(cdf, p, md))
                        if not close(c, 0.5): say(d.name, P_, 'median', c)
                    qu = d.f.get('quantile')
                    if qu:
                        c = val(pick(cdf, p, qu(p, R_(3, 10))))
                        if not close(c, 0.3): say(d.name, P_, 'quantile', c)
                    ms = pick(d.f.get('modes'), p)
                    if ms and len(ms) == 1:
                        m = mp.mpf(val(ms[0]))
                        at = dens(m) if lo < m < hi else dens(m + mp.mpf(10) ** -9 if m <= lo else m - mp.mpf(10) ** -9)
                        for h in (0.05, 0.2, 1):
                            for x in (m - h, m + h):
                                if lo < x < hi and dens(x) > at * (1 + mp.mpf(10) ** -6): say(d.name, P_, 'mode', m, x)
                else:
                    pmf = d.f.get('pmf')
                    if pmf is None: continue
                    r = list(d.xvals(list(f.values())[0] if f else 0))
                    if d.name in ('geometric', 'poisson'): r = range(0, 150)
                    ps = [(k, mp.mpf(val(pmf(p, k)))) for k in r]
                    ps = [(k, v) for k, v in ps if v > 0]
                    if not close(sum(v for k, v in ps), 1, 1e-3):
                        say(d.name, P_, 'total', sum(v for k, v in ps)); continue
                    cdf = d.f.get('cdf')
                    if cdf:
                        for k, v in ps[:6]:
                            s = sum(w for j, w in ps if j <= k)
                            if not close(s, val(cdf(p, k))): say(d.name, P_, 'cdf', k)
                    m = sum(k * v for k, v in ps); v2 = sum((k - m) ** 2 * v for k, v in ps)
                    for nm, w in (('mean', m), ('variance', v2), ('skewness', sum((k - m) ** 3 * v for k, v in ps) / mp.sqrt(v2) ** 3 if v2 else None),
                                  ('exk', sum((k - m) ** 4 * v for k, v in ps) / v2 ** 2 - 3 if v2 else None),
                                  ('entropy', -sum(v * mp.log(v) for k, v in ps))):
                        s = pick(d.f.get(nm), p)
                        if s is not None and w is not None and not close(w, val(s), 2e-3): say(d.name, P_, nm, w, val(s))
                    ms = pick(d.f.get('modes'), p)
                    if ms:
                        top = max(v for k, v in ps)
                        for x in ms:
                            if not close(dict(ps).get(int(val(x)), 0), top): say(d.name, P_, 'mode', val(x))
                    md = pick(d.f.get('median'), p)
                    if md is not None and d.name != 'uniform_int':
                        x = val(md)
                        lo_ = sum(v for k, v in ps if k <= x); hi_ = sum(v for k, v in ps if k >= x)
                        if lo_ < 0.4999999 or hi_ < 0.4999999: say(d.name, P_, 'median', x)
            except Exception as ex:
                print('error', d.name, P_, repr(ex)[:200], flush=True)
print("comparisons:", NCMP[0], "mismatches:", bad)
