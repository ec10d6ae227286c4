"""The univariate distributions: how to build them, where they are defined, and
what their functionals are (exact real formulas, from the literature)."""
from fractions import Fraction as Fr
from common import *

R = tm.rat
PI, EUL, Z3 = tm.const('pi'), tm.const('euler'), tm.const('zeta3')
def exp(x): return tm.fun('exp', x)
def ln(x): return tm.fun('log', x)
def sq(x): return tm.fun('sqrt', x)
def pw(x, y): return tm.fun('pow', x, y)
def sin(x): return tm.fun('sin', x)
def cos(x): return tm.fun('cos', x)
def tan(x): return tm.fun('tan', x)
def asin(x): return tm.fun('asin', x)
def atan(x): return tm.fun('atan', x)
def G(x): return tm.fun('sf_gamma', x)
def LG(x): return tm.fun('sf_loggamma', x)
def DG(x): return tm.fun('sf_digamma', x)
def B(a, b): return G(a) * G(b) / G(tm.lift(a) + b)
def LB(a, b): return LG(a) + LG(b) - LG(tm.lift(a) + b)
def erf(x): return tm.fun('sf_erf', x)
def erfc(x): return 1 - erf(x)
def Phi(x): return (1 + erf(x / sq(R(2)))) / 2
def IB(x, a, b): return tm.fun('sf_betainc', x, a, b)
def P(a, x): return tm.fun('sf_gammainc', x, a)      # regularised lower
def absf(x): return tm.fun('fabs', x)
def half(x): return x / 2


def isodd(x): return x


class D:
    """kinds: one letter per constructor argument
         l real  s positive  p in (0,1)  a positive above 1... ; k positive integer, n natural (fixed values)
    """

    def __init__(self, name, path, kinds, ctor=None, x=None, sup=None, nvals=None, xvals=None, **f):
        self.name, self.path, self.kinds = name, path, kinds
        self.ctor = ctor or path + '::new(%s)'
        self.x, self.sup = x, sup           # 'f' float argument / 'u' integer type / None
        self.nvals = nvals or [{}]          # fixed integer parameters
        self.xvals = xvals
        self.f = f
        self.pre_extra = f.pop('pre', None)
        self.hints = f.pop('hints', {})
        self.edge = f.pop('edge', None)     # an end case of the named distribution


def U(n): return 'crate::univariate::' + n


DISTS = []


def dist(*a, **k):
    DISTS.append(D(*a, **k))


def unit(p, x): return [gt(x, Z), lt(x, ONE)]
def posx(p, x): return [gt(x, Z)]
def realx(p, x): return []


def Hb(b): return DG(b + 1) + EUL


# ---------------------------------------------------------------- continuous
dist('arcsine', U('arcsine::Arcsine'), 'ls', x='f', sup=lambda p, x: [gt(x, p[0]), lt(x, p[0] + p[1])],
     cdf=lambda p, x: 2 / PI * asin(sq((x - p[0]) / p[1])),
     pdf=lambda p, x: 1 / (PI * sq((x - p[0]) * (p[0] + p[1] - x))),
     mean=lambda p: p[0] + p[1] / 2, variance=lambda p: p[1] ** 2 / 8, skewness=lambda p: R(0), exk=lambda p: R(-3, 2),
     median=lambda p: p[0] + p[1] / 2, modes=lambda p: [p[0], p[0] + p[1]], entropy=lambda p: ln(PI * p[1] / 4))

bexk = lambda a, b: 6 * ((a - b) ** 2 * (a + b + 1) - a * b * (a + b + 2)) / (a * b * (a + b + 2) * (a + b + 3))
dist('beta', U('beta::Beta'), 'ss', x='f', sup=unit,
     cdf=lambda p, x: IB(x, p[0], p[1]),
     pdf=lambda p, x: pw(x, p[0] - 1) * pw(1 - x, p[1] - 1) / B(p[0], p[1]),
     mean=lambda p: p[0] / (p[0] + p[1]), variance=lambda p: p[0] * p[1] / ((p[0] + p[1]) ** 2 * (p[0] + p[1] + 1)),
     skewness=lambda p: 2 * (p[1] - p[0]) * sq(p[0] + p[1] + 1) / ((p[0] + p[1] + 2) * sq(p[0] * p[1])),
     exk=lambda p: bexk(p[0], p[1]),
     modes=[(lambda p: [gt(p[0], ONE), gt(p[1], ONE)], lambda p: [(p[0] - 1) / (p[0] + p[1] - 2)]),
            (lambda p: [lt(p[0], ONE), lt(p[1], ONE)], lambda p: [R(0), R(1)]),
            (lambda p: [le(p[0], ONE), gt(p[1], ONE)], lambda p: [R(0)]),
            (lambda p: [gt(p[0], ONE), le(p[1], ONE)], lambda p: [R(1)]),
            (lambda p: [lt(p[0], ONE), eqf(p[1], ONE)], lambda p: [R(0)]),
            (lambda p: [eqf(p[0], ONE), lt(p[1], ONE)], lambda p: [R(1)])],
     entropy=lambda p: LB(p[0], p[1]) - (p[0] - 1) * DG(p[0]) - (p[1] - 1) * DG(p[1]) + (p[0] + p[1] - 2) * DG(p[0] + p[1]))

dist('beta_prime', U('beta_prime::BetaPrime'), 'ss', x='f', sup=posx,
     cdf=lambda p, x: IB(x / (1 + x), p[0], p[1]),
     pdf=lambda p, x: pw(x, p[0] - 1) * pw(1 + x, -p[0] - p[1]) / B(p[0], p[1]),
     mean=(lambda p: [gt(p[1], ONE)], lambda p: p[0] / (p[1] - 1)),
     variance=(lambda p: [gt(p[1], f64(2))], lambda p: p[0] * (p[0] + p[1] - 1) / ((p[1] - 2) * (p[1] - 1) ** 2)),
     skewness=(lambda p: [gt(p[1], f64(3))], lambda p: 2 * (2 * p[0] + p[1] - 1) / (p[1] - 3) * sq((p[1] - 2) / (p[0] * (p[0] + p[1] - 1)))),
     exk=(lambda p: [gt(p[1], f64(4))], lambda p: 6 * (p[0] * (p[0] + p[1] - 1) * (5 * p[1] - 11) + (p[1] - 1) ** 2 * (p[1] - 2)) /
          (p[0] * (p[0] + p[1] - 1) * (p[1] - 3) * (p[1] - 4))),
     modes=[(lambda p: [ge(p[0], ONE)], lambda p: [(p[0] - 1) / (p[1] + 1)]), (lambda p: [lt(p[0], ONE)], lambda p: [R(0)])],
     entropy=lambda p: LB(p[0], p[1]) - (p[0] - 1) * (DG(p[0]) - DG(p[1])) + (p[0] + p[1]) * (DG(p[0] + p[1]) - DG(p[1])))

dist('cauchy', U('cauchy::Cauchy'), 'ls', x='f', sup=realx,
     cdf=lambda p, x: R(1, 2) + atan((x - p[0]) / p[1]) / PI,
     pdf=lambda p, x: 1 / (PI * p[1] * (1 + ((x - p[0]) / p[1]) ** 2)),
     quantile=lambda p, q: p[0] + p[1] * tan(PI * (q - R(1, 2))), median=lambda p: p[0], modes=lambda p: [p[0]],
     entropy=lambda p: ln(4 * PI * p[1]), extra={'fwhm': lambda p: 2 * p[1]})

chimu = lambda k: sq(R(2)) * G((k + 1) / 2) / G(k / 2)


def chiskew(k):
    m = chimu(k); s2 = k - m * m
    return m / (s2 * sq(s2)) * (1 - 2 * s2)


def chiexk(k):
    m = chimu(k); s2 = k - m * m
    return 2 / s2 * (1 - m * sq(s2) * chiskew(k) - s2)


KS = [{0: k} for k in range(1, 9)]
dist('chi', U('chi::Chi'), 'k', x='f', sup=posx, nvals=KS,
     cdf=lambda p, x: P(p[0] / 2, x * x / 2),
     pdf=lambda p, x: pw(x, p[0] - 1) * exp(-(x * x) / 2) / (pw(R(2), p[0] / 2 - 1) * G(p[0] / 2)),
     mean=lambda p: chimu(p[0]), variance=lambda p: p[0] - chimu(p[0]) ** 2, skewness=lambda p: chiskew(p[0]), exk=lambda p: chiexk(p[0]),
     modes=lambda p: [sq(p[0] - 1)],
     entropy=lambda p: LG(p[0] / 2) + (p[0] - ln(R(2)) - (p[0] - 1) * DG(p[0] / 2)) / 2)

dist('chi_sq', U('chi_sq::ChiSq'), 'k', x='f', sup=posx, nvals=KS,
     cdf=lambda p, x: P(p[0] / 2, x / 2),
     pdf=lambda p, x: pw(x, p[0] / 2 - 1) * exp(-x / 2) / (pw(R(2), p[0] / 2) * G(p[0] / 2)),
     mean=lambda p: p[0], variance=lambda p: 2 * p[0], skewness=lambda p: sq(8 / p[0]), exk=lambda p: 12 / p[0],
     modes=[(lambda p: [ge(p[0], f64(2))], lambda p: [p[0] - 2]), (lambda p: [lt(p[0], f64(2))], lambda p: [R(0)])],
     entropy=lambda p: p[0] / 2 + ln(R(2)) + LG(p[0] / 2) + (1 - p[0] / 2) * DG(p[0] / 2))

dist('cosine', U('cosine::Cosine'), 'ls', x='f', sup=lambda p, x: [gt(x, p[0] - p[1]), lt(x, p[0] + p[1])],
     cdf=lambda p, x: (1 + (x - p[0]) / p[1] + sin(PI * (x - p[0]) / p[1]) / PI) / 2,
     pdf=lambda p, x: (1 + cos(PI * (x - p[0]) / p[1])) / (2 * p[1]),
     mean=lambda p: p[0], variance=lambda p: p[1] ** 2 * (R(1, 3) - 2 / PI ** 2), skewness=lambda p: R(0),
     exk=lambda p: 6 * (90 - PI ** 4) / (5 * (PI ** 2 - 6) ** 2), median=lambda p: p[0], modes=lambda p: [p[0]])

dist('degenerate', U('degenerate::Degenerate::<f64>'), 'l', ctor='Ok::<_, ()>(' + U('degenerate::Degenerate::<f64>') + '::new(%s))', x='f', sup=realx,
     cdf=[(lambda p, x: [lt(x, p[0])], lambda p, x: R(0)), (lambda p, x: [ge(x, p[0])], lambda p, x: R(1))],
     # an atom, not a density: one at the point and zero everywhere but close to it
     pdf=[(lambda p, x: [eqf(x, p[0])], lambda p, x: R(1)), (lambda p, x: [lt(x + R(1, 10 ** 6), p[0])], lambda p, x: R(0)), (lambda p, x: [gt(x - R(1, 10 ** 6), p[0])], lambda p, x: R(0))],
     mean=lambda p: p[0], variance=lambda p: R(0), median=lambda p: p[0], modes=lambda p: [p[0]], entropy=lambda p: R(0))

dist('erlang', U('erlang::Erlang'), 'ks', x='f', sup=posx, nvals=KS,
     cdf=lambda p, x: P(p[0], p[1] * x),
     pdf=lambda p, x: pw(p[1], p[0]) * pw(x, p[0] - 1) * exp(-(p[1] * x)) / G(p[0]),
     mean=lambda p: p[0] / p[1], variance=lambda p: p[0] / p[1] ** 2, skewness=lambda p: 2 / sq(p[0]), exk=lambda p: 6 / p[0],
     modes=lambda p: [(p[0] - 1) / p[1]])

def STIRLING(n):
    """ln n! from the first terms of the asymptotic series (the documented approximation)"""
    x = n + 1
    return (x - R(1, 2)) * ln(x) - x + ln(2 * PI) / 2 + 1 / (12 * x)


DISTS[-1].f['pdf_any'] = [(lambda p, x: [le(p[0], f64(255))], DISTS[-1].f['pdf']),
                          (lambda p, x: [gt(p[0], f64(255))], lambda p, x: exp(p[0] * ln(p[1]) + (p[0] - 1) * ln(x) - p[1] * x - STIRLING(p[0] - 1)))]

dist('exponential', U('exponential::Exponential'), 's', x='f', sup=posx,
     cdf=lambda p, x: 1 - exp(-(p[0] * x)), pdf=lambda p, x: p[0] * exp(-(p[0] * x)),
     mean=lambda p: 1 / p[0], variance=lambda p: 1 / p[0] ** 2, skewness=lambda p: R(2), exk=lambda p: R(6),
     quantile=lambda p, q: -ln(1 - q) / p[0], median=lambda p: ln(R(2)) / p[0], modes=lambda p: [R(0)],
     entropy=lambda p: 1 - ln(p[0]), fisher=lambda p: [[1 / p[0] ** 2]])

FV = [{0: a, 1: b} for a, b in ((1, 1), (2, 3), (3, 2), (1, 4), (4, 5), (5, 6), (2, 7), (6, 8), (3, 9), (7, 11), (1, 12), (9, 5))]
dist('f_dist', U('f_dist::FDist'), 'kk', x='f', sup=posx, nvals=FV,
     cdf=lambda p, x: IB(p[0] * x / (p[0] * x + p[1]), p[0] / 2, p[1] / 2),
     pdf=lambda p, x: sq(pw(p[0] * x, p[0]) * pw(p[1], p[1]) / pw(p[0] * x + p[1], p[0] + p[1])) / (x * B(p[0] / 2, p[1] / 2)),
     mean=(lambda p: [gt(p[1], f64(2))], lambda p: p[1] / (p[1] - 2)),
     variance=(lambda p: [gt(p[1], f64(4))], lambda p: 2 * p[1] ** 2 * (p[0] + p[1] - 2) / (p[0] * (p[1] - 2) ** 2 * (p[1] - 4))),
     skewness=(lambda p: [gt(p[1], f64(6))], lambda p: (2 * p[0] + p[1] - 2) * sq(8 * (p[1] - 4)) / ((p[1] - 6) * sq(p[0] * (p[0] + p[1] - 2)))),
     exk=(lambda p: [gt(p[1], f64(8))], lambda p: 12 * (p[0] * (5 * p[1] - 22) * (p[0] + p[1] - 2) + (p[1] - 4) * (p[1] - 2) ** 2) /
          (p[0] * (p[1] - 6) * (p[1] - 8) * (p[0] + p[1] - 2))),
     modes=[(lambda p: [gt(p[0], f64(2))], lambda p: [(p[0] - 2) / p[0] * p[1] / (p[1] + 2)])],
     entropy=lambda p: LB(p[0] / 2, p[1] / 2) + (1 - p[0] / 2) * DG(p[0] / 2) - (1 + p[1] / 2) * DG(p[1] / 2) +
     (p[0] + p[1]) / 2 * DG((p[0] + p[1]) / 2) + ln(p[1] / p[0]))

fnmean = lambda p: p[1] * sq(2 / PI) * exp(-(p[0] ** 2) / (2 * p[1] ** 2)) + p[0] * erf(p[0] / (p[1] * sq(R(2))))
dist('folded_normal', U('folded_normal::FoldedNormal'), 'ls', x='f', sup=posx,
     cdf=lambda p, x: (erf((x + p[0]) / (p[1] * sq(R(2)))) + erf((x - p[0]) / (p[1] * sq(R(2))))) / 2,
     pdf=lambda p, x: (exp(-((x - p[0]) ** 2) / (2 * p[1] ** 2)) + exp(-((x + p[0]) ** 2) / (2 * p[1] ** 2))) / (p[1] * sq(2 * PI)),
     mean=fnmean, variance=lambda p: p[0] ** 2 + p[1] ** 2 - fnmean(p) ** 2,
     modes=[(lambda p: [le(p[0], p[1]), ge(p[0], -p[1])], lambda p: [R(0)])])

fg = lambda p, k: G(1 - k / p[0])
dist('frechet', U('frechet::Frechet'), 's', x='f', sup=posx,
     cdf=lambda p, x: exp(-pw(x, -p[0])), pdf=lambda p, x: p[0] * pw(x, -1 - p[0]) * exp(-pw(x, -p[0])),
     mean=(lambda p: [gt(p[0], ONE)], lambda p: fg(p, R(1))),
     variance=(lambda p: [gt(p[0], f64(2))], lambda p: fg(p, R(2)) - fg(p, R(1)) ** 2),
     skewness=(lambda p: [gt(p[0], f64(3))], lambda p: (fg(p, R(3)) - 3 * fg(p, R(2)) * fg(p, R(1)) + 2 * fg(p, R(1)) ** 3) / pw(fg(p, R(2)) - fg(p, R(1)) ** 2, R(3, 2))),
     exk=(lambda p: [gt(p[0], f64(4))], lambda p: -6 + (fg(p, R(4)) - 4 * fg(p, R(3)) * fg(p, R(1)) + 3 * fg(p, R(2)) ** 2) / (fg(p, R(2)) - fg(p, R(1)) ** 2) ** 2),
     median=lambda p: pw(ln(R(2)), -1 / p[0]), modes=lambda p: [pw(p[0] / (1 + p[0]), 1 / p[0])],
     entropy=lambda p: 1 + EUL / p[0] + EUL - ln(p[0]))

dist('gamma', U('gamma::Gamma'), 'ss', x='f', sup=posx,
     cdf=lambda p, x: P(p[0], p[1] * x),
     pdf=lambda p, x: pw(p[1], p[0]) * pw(x, p[0] - 1) * exp(-(p[1] * x)) / G(p[0]),
     mean=lambda p: p[0] / p[1], variance=lambda p: p[0] / p[1] ** 2, skewness=lambda p: 2 / sq(p[0]), exk=lambda p: 6 / p[0],
     modes=[(lambda p: [ge(p[0], ONE)], lambda p: [(p[0] - 1) / p[1]])],
     entropy=lambda p: p[0] - ln(p[1]) + LG(p[0]) + (1 - p[0]) * DG(p[0]))

gv = lambda p, k: G(1 - k * p[2])
gevt = lambda p, x: pw(1 + p[2] * (x - p[0]) / p[1], -1 / p[2])
gz = lambda p: [ge(p[2], f64(1e-6))]
dist('gev', U('gev::GeneralisedExtremeValue'), 'lss', x='f', sup=lambda p, x: [gt(1 + p[2] * (x - p[0]) / p[1], Z)], pre=gz,
     cdf=lambda p, x: exp(-gevt(p, x)), pdf=lambda p, x: pw(gevt(p, x), p[2] + 1) * exp(-gevt(p, x)) / p[1],
     mean=(lambda p: [lt(p[2], ONE)], lambda p: p[0] + p[1] * (gv(p, 1) - 1) / p[2]),
     variance=(lambda p: [lt(p[2], f64(0.5))], lambda p: p[1] ** 2 * (gv(p, 2) - gv(p, 1) ** 2) / p[2] ** 2),
     skewness=(lambda p: [lt(3 * p[2], ONE)], lambda p: (gv(p, 3) - 3 * gv(p, 2) * gv(p, 1) + 2 * gv(p, 1) ** 3) / pw(gv(p, 2) - gv(p, 1) ** 2, R(3, 2))),
     exk=(lambda p: [lt(p[2], f64(0.25))], lambda p: (gv(p, 4) - 4 * gv(p, 3) * gv(p, 1) - 3 * gv(p, 2) ** 2 + 12 * gv(p, 2) * gv(p, 1) ** 2 - 6 * gv(p, 1) ** 4) / (gv(p, 2) - gv(p, 1) ** 2) ** 2),
     median=lambda p: p[0] + p[1] * (pw(ln(R(2)), -p[2]) - 1) / p[2], modes=lambda p: [p[0] + p[1] * (pw(1 + p[2], -p[2]) - 1) / p[2]],
     entropy=lambda p: ln(p[1]) + EUL * p[2] + EUL + 1, hints={'a2': (0.02, 0.3)})

dist('gpd', U('gpd::GeneralisedPareto'), 'lss', x='f', sup=lambda p, x: [gt(x, p[0])], pre=gz,
     cdf=lambda p, x: 1 - pw(1 + p[2] * (x - p[0]) / p[1], -1 / p[2]), pdf=lambda p, x: pw(1 + p[2] * (x - p[0]) / p[1], -1 / p[2] - 1) / p[1],
     mean=(lambda p: [lt(p[2], ONE)], lambda p: p[0] + p[1] / (1 - p[2])),
     variance=(lambda p: [lt(p[2], f64(0.5))], lambda p: p[1] ** 2 / ((1 - p[2]) ** 2 * (1 - 2 * p[2]))),
     skewness=(lambda p: [lt(3 * p[2], ONE)], lambda p: 2 * (1 + p[2]) * sq(1 - 2 * p[2]) / (1 - 3 * p[2])),
     exk=(lambda p: [lt(p[2], f64(0.25))], lambda p: 3 * (1 - 2 * p[2]) * (2 * p[2] ** 2 + p[2] + 3) / ((1 - 3 * p[2]) * (1 - 4 * p[2])) - 3),
     median=lambda p: p[0] + p[1] * (pw(R(2), p[2]) - 1) / p[2], entropy=lambda p: ln(p[1]) + p[2] + 1, hints={'a2': (0.02, 0.3)})

gz_ = lambda p, x: (x - p[0]) / p[1]
dist('gumbel', U('gumbel::Gumbel'), 'ls', x='f', sup=realx,
     cdf=lambda p, x: exp(-exp(-gz_(p, x))), pdf=lambda p, x: exp(-(gz_(p, x) + exp(-gz_(p, x)))) / p[1],
     mean=lambda p: p[0] + p[1] * EUL, variance=lambda p: PI ** 2 * p[1] ** 2 / 6, skewness=lambda p: 12 * sq(R(6)) * Z3 / PI ** 3, exk=lambda p: R(12, 5),
     median=lambda p: p[0] - p[1] * ln(ln(R(2))), modes=lambda p: [p[0]], entropy=lambda p: ln(p[1]) + EUL + 1)

dist('inverse_gamma', U('inverse_gamma::InvGamma'), 'ss', x='f', sup=posx,
     cdf=lambda p, x: 1 - P(p[0], p[1] / x), pdf=lambda p, x: pw(p[1], p[0]) / G(p[0]) * pw(x, -p[0] - 1) * exp(-(p[1] / x)),
     mean=(lambda p: [gt(p[0], ONE)], lambda p: p[1] / (p[0] - 1)),
     variance=(lambda p: [gt(p[0], f64(2))], lambda p: p[1] ** 2 / ((p[0] - 1) ** 2 * (p[0] - 2))),
     skewness=(lambda p: [gt(p[0], f64(3))], lambda p: 4 * sq(p[0] - 2) / (p[0] - 3)),
     exk=(lambda p: [gt(p[0], f64(4))], lambda p: 6 * (5 * p[0] - 11) / ((p[0] - 3) * (p[0] - 4))),
     modes=lambda p: [p[1] / (p[0] + 1)], entropy=lambda p: p[0] + ln(p[1]) + LG(p[0]) - (1 + p[0]) * DG(p[0]))

dist('inverse_normal', U('inverse_normal::InvNormal'), 'ss', x='f', sup=posx,
     cdf=lambda p, x: Phi(sq(p[1] / x) * (x / p[0] - 1)) + exp(2 * p[1] / p[0]) * Phi(-(sq(p[1] / x) * (x / p[0] + 1))),
     pdf=lambda p, x: sq(p[1] / (2 * PI * x ** 3)) * exp(-(p[1] * (x - p[0]) ** 2) / (2 * p[0] ** 2 * x)),
     mean=lambda p: p[0], variance=lambda p: p[0] ** 3 / p[1], skewness=lambda p: 3 * sq(p[0] / p[1]), exk=lambda p: 15 * p[0] / p[1],
     modes=lambda p: [p[0] * (sq(1 + 9 * p[0] ** 2 / (4 * p[1] ** 2)) - 3 * p[0] / (2 * p[1]))])

km = lambda p, n: p[1] * B(1 + R(n) / p[0], p[1])
kvar = lambda p: km(p, 2) - km(p, 1) ** 2
dist('kumaraswamy', U('kumaraswamy::Kumaraswamy'), 'ss', x='f', sup=unit,
     ctor=U('kumaraswamy::Params') + '::new(%s).map(|p| -> ' + U('kumaraswamy::Kumaraswamy') + ' { p.into() })',
     cdf=lambda p, x: 1 - pw(1 - pw(x, p[0]), p[1]), pdf=lambda p, x: p[0] * p[1] * pw(x, p[0] - 1) * pw(1 - pw(x, p[0]), p[1] - 1),
     mean=lambda p: km(p, 1), variance=kvar, skewness=lambda p: (km(p, 3) - 3 * km(p, 1) * kvar(p) - km(p, 1) ** 3) / pw(kvar(p), R(3, 2)),
     median=lambda p: pw(1 - pw(R(2), -1 / p[1]), 1 / p[0]),
     modes=[(lambda p: [ge(p[0], ONE), ge(p[1], ONE), gt(p[0] * p[1], ONE)], lambda p: [pw((p[0] - 1) / (p[0] * p[1] - 1), 1 / p[0])]),
            (lambda p: [lt(p[0], ONE), lt(p[1], ONE)], lambda p: [R(0), R(1)]),
            (lambda p: [lt(p[0], ONE), ge(p[1], ONE)], lambda p: [R(0)]), (lambda p: [ge(p[0], ONE), lt(p[1], ONE)], lambda p: [R(1)])],
     entropy=lambda p: (1 - 1 / p[1]) + (1 - 1 / p[0]) * Hb(p[1]) - ln(p[0] * p[1]))

dist('laplace', U('laplace::Laplace'), 'ls', x='f', sup=realx,
     cdf=[(lambda p, x: [lt(x, p[0])], lambda p, x: exp((x - p[0]) / p[1]) / 2), (lambda p, x: [ge(x, p[0])], lambda p, x: 1 - exp(-(x - p[0]) / p[1]) / 2)],
     pdf=lambda p, x: exp(-absf(x - p[0]) / p[1]) / (2 * p[1]),
     mean=lambda p: p[0], variance=lambda p: 2 * p[1] ** 2, skewness=lambda p: R(0), exk=lambda p: R(3), median=lambda p: p[0], modes=lambda p: [p[0]],
     entropy=lambda p: 1 + ln(2 * p[1]))

dist('levy', U('levy::Levy'), 'ls', x='f', sup=lambda p, x: [gt(x, p[0])],
     cdf=lambda p, x: erfc(sq(p[1] / (2 * (x - p[0])))), pdf=lambda p, x: sq(p[1] / (2 * PI)) * exp(-(p[1] / (2 * (x - p[0])))) / pw(x - p[0], R(3, 2)),
     mean=(lambda p: [FALSE], None), variance=(lambda p: [FALSE], None), skewness=(lambda p: [FALSE], None), kurtosis=(lambda p: [FALSE], None),
     modes=lambda p: [p[0] + p[1] / 3], entropy=lambda p: (1 + 3 * EUL + ln(16 * PI * p[1] ** 2)) / 2)

dist('logistic', U('logistic::Logistic'), 'ls', x='f', sup=realx,
     cdf=lambda p, x: 1 / (1 + exp(-gz_(p, x))), pdf=lambda p, x: exp(-gz_(p, x)) / (p[1] * (1 + exp(-gz_(p, x))) ** 2),
     mean=lambda p: p[0], variance=lambda p: p[1] ** 2 * PI ** 2 / 3, skewness=lambda p: R(0), exk=lambda p: R(6, 5), median=lambda p: p[0], modes=lambda p: [p[0]],
     entropy=lambda p: ln(p[1]) + 2)

dist('lognormal', U('lognormal::LogNormal'), 'ls', x='f', sup=posx,
     cdf=lambda p, x: Phi((ln(x) - p[0]) / sq(p[1])), pdf=lambda p, x: exp(-((ln(x) - p[0]) ** 2) / (2 * p[1])) / (x * sq(2 * PI * p[1])),
     mean=lambda p: exp(p[0] + p[1] / 2), variance=lambda p: (exp(p[1]) - 1) * exp(2 * p[0] + p[1]), skewness=lambda p: (exp(p[1]) + 2) * sq(exp(p[1]) - 1),
     exk=lambda p: exp(4 * p[1]) + 2 * exp(3 * p[1]) + 3 * exp(2 * p[1]) - 6, median=lambda p: exp(p[0]), modes=lambda p: [exp(p[0] - p[1])],
     entropy=lambda p: p[0] + R(1, 2) + ln(2 * PI * p[1]) / 2, fisher=lambda p: [[1 / p[1], R(0)], [R(0), 1 / (2 * p[1] ** 2)]], hints={'a1': (0.2, 2)})

dist('normal', 'crate::normal::UvNormal', 'ls', x='f', sup=realx,
     cdf=lambda p, x: Phi((x - p[0]) / sq(p[1])), pdf=lambda p, x: exp(-((x - p[0]) ** 2) / (2 * p[1])) / sq(2 * PI * p[1]),
     mean=lambda p: p[0], variance=lambda p: p[1], skewness=lambda p: R(0), exk=lambda p: R(0), median=lambda p: p[0], modes=lambda p: [p[0]],
     quantile=lambda p, q: p[0] + sq(p[1]) * tm.fun('sf_norm_inv', q),
     entropy=lambda p: R(1, 2) + ln(2 * PI * p[1]) / 2, fisher=lambda p: [[1 / p[1], R(0)], [R(0), 1 / (2 * p[1] ** 2)]],
     extra={'precision': lambda p: 1 / p[1]})

dist('pareto', U('pareto::Pareto'), 'ss', x='f', sup=lambda p, x: [ge(x, p[0])],
     cdf=lambda p, x: 1 - pw(p[0] / x, p[1]), pdf=lambda p, x: p[1] * pw(p[0], p[1]) / pw(x, p[1] + 1),
     mean=(lambda p: [gt(p[1], ONE)], lambda p: p[1] * p[0] / (p[1] - 1)),
     variance=(lambda p: [gt(p[1], f64(2))], lambda p: p[0] ** 2 * p[1] / ((p[1] - 1) ** 2 * (p[1] - 2))),
     skewness=(lambda p: [gt(p[1], f64(3))], lambda p: 2 * (1 + p[1]) / (p[1] - 3) * sq((p[1] - 2) / p[1])),
     exk=(lambda p: [gt(p[1], f64(4))], lambda p: 6 * (p[1] ** 3 + p[1] ** 2 - 6 * p[1] - 2) / (p[1] * (p[1] - 3) * (p[1] - 4))),
     median=lambda p: p[0] * pw(R(2), 1 / p[1]), modes=lambda p: [p[0]], entropy=lambda p: ln(p[0] / p[1]) + 1 + 1 / p[1],
     # minus the expected Hessian; the family is not regular in the scale, so the expected square of the score differs
     fisher=lambda p: [[p[1] / p[0] ** 2, -1 / p[0]], [-1 / p[0], 1 / p[1] ** 2]])

dist('rayleigh', U('rayleigh::Rayleigh'), 's', x='f', sup=posx,
     cdf=lambda p, x: 1 - exp(-(x * x) / (2 * p[0] ** 2)), pdf=lambda p, x: x / p[0] ** 2 * exp(-(x * x) / (2 * p[0] ** 2)),
     mean=lambda p: p[0] * sq(PI / 2), variance=lambda p: (4 - PI) / 2 * p[0] ** 2, skewness=lambda p: 2 * sq(PI) * (PI - 3) / pw(4 - PI, R(3, 2)),
     exk=lambda p: -(6 * PI ** 2 - 24 * PI + 16) / (4 - PI) ** 2, median=lambda p: p[0] * sq(2 * ln(R(2))), modes=lambda p: [p[0]],
     entropy=lambda p: 1 + ln(p[0] / sq(R(2))) + EUL / 2)

dist('student_t', U('student_t::StudentT'), 's', x='f', sup=realx,
     cdf=lambda p, x: R(1, 2) + x * G((p[0] + 1) / 2) / (sq(PI * p[0]) * G(p[0] / 2)) * tm.fun('sf_hyp2f1', -(x * x) / p[0], R(1, 2), (p[0] + 1) / 2, R(3, 2)),
     pdf=lambda p, x: G((p[0] + 1) / 2) / (sq(PI * p[0]) * G(p[0] / 2)) * pw(1 + x * x / p[0], -(p[0] + 1) / 2),
     mean=(lambda p: [gt(p[0], ONE)], lambda p: R(0)), variance=(lambda p: [gt(p[0], f64(2))], lambda p: p[0] / (p[0] - 2)),
     skewness=(lambda p: [gt(p[0], f64(3))], lambda p: R(0)), exk=(lambda p: [gt(p[0], f64(4))], lambda p: 6 / (p[0] - 4)),
     median=lambda p: R(0), modes=lambda p: [R(0)],
     entropy=lambda p: (p[0] + 1) / 2 * (DG((p[0] + 1) / 2) - DG(p[0] / 2)) + ln(sq(p[0])) + LB(p[0] / 2, R(1, 2)))

ta, tc, tb = (lambda p: p[0]), (lambda p: p[0] + p[1]), (lambda p: p[0] + p[1] + p[2])
tq = lambda p: p[1] ** 2 + p[2] ** 2 + p[1] * p[2]         # a2 + b2 + c2 - ab - ac - bc
dist('triangular', U('triangular::Triangular'), 'lss', x='f', sup=realx,
     cdf=[(lambda p, x: [le(x, ta(p))], lambda p, x: R(0)),
          (lambda p, x: [gt(x, ta(p)), le(x, tc(p))], lambda p, x: (x - p[0]) ** 2 / ((p[1] + p[2]) * p[1])),
          (lambda p, x: [gt(x, tc(p)), lt(x, tb(p))], lambda p, x: 1 - (tb(p) - x) ** 2 / ((p[1] + p[2]) * p[2])),
          (lambda p, x: [ge(x, tb(p))], lambda p, x: R(1))],
     pdf=[(lambda p, x: [lt(x, ta(p))], lambda p, x: R(0)),
          (lambda p, x: [ge(x, ta(p)), lt(x, tc(p))], lambda p, x: 2 * (x - p[0]) / ((p[1] + p[2]) * p[1])),
          (lambda p, x: [eqf(x, tc(p))], lambda p, x: 2 / (p[1] + p[2])),
          (lambda p, x: [gt(x, tc(p)), le(x, tb(p))], lambda p, x: 2 * (tb(p) - x) / ((p[1] + p[2]) * p[2])),
          (lambda p, x: [gt(x, tb(p))], lambda p, x: R(0))],
     mean=lambda p: p[0] + (2 * p[1] + p[2]) / 3, variance=lambda p: tq(p) / 18,
     skewness=lambda p: sq(R(2)) * (p[2] - p[1]) * (-2 * p[1] - p[2]) * (-p[1] - 2 * p[2]) / (5 * pw(tq(p), R(3, 2))), exk=lambda p: R(-3, 5),
     median=[(lambda p: [ge(p[1], p[2])], lambda p: p[0] + sq((p[1] + p[2]) * p[1] / 2)), (lambda p: [lt(p[1], p[2])], lambda p: tb(p) - sq((p[1] + p[2]) * p[2] / 2))],
     modes=lambda p: [tc(p)], entropy=lambda p: R(1, 2) + ln((p[1] + p[2]) / 2),
     hints={'a1': (0.5, 3), 'a2': (0.5, 3), 'a0': (-1, 1), 'a3': (-1, 4)})

dist('uniform', U('uniform::Uniform::<f64>'), 'ls', x='f', sup=realx,
     cdf=[(lambda p, x: [lt(x, p[0])], lambda p, x: R(0)), (lambda p, x: [ge(x, p[0]), le(x, p[0] + p[1])], lambda p, x: (x - p[0]) / p[1]),
          (lambda p, x: [gt(x, p[0] + p[1])], lambda p, x: R(1))],
     pdf=[(lambda p, x: [lt(x, p[0])], lambda p, x: R(0)), (lambda p, x: [ge(x, p[0]), le(x, p[0] + p[1])], lambda p, x: 1 / p[1]),
          (lambda p, x: [gt(x, p[0] + p[1])], lambda p, x: R(0))],
     mean=lambda p: p[0] + p[1] / 2, variance=lambda p: p[1] ** 2 / 12, skewness=lambda p: R(0), exk=lambda p: R(-6, 5),
     quantile=lambda p, q: p[0] + q * p[1], median=lambda p: p[0] + p[1] / 2, entropy=lambda p: ln(p[1]),
     hints={'a1': (0.5, 3), 'a0': (-1, 1), 'a2': (-1, 3)})

wg = lambda p, k: G(1 + R(k) / p[1])
wvar = lambda p: wg(p, 2) - wg(p, 1) ** 2
dist('weibull', U('weibull::Weibull'), 'ss', x='f', sup=posx,
     ctor=U('weibull::Params') + '::new(%s).map(|p| -> ' + U('weibull::Weibull') + ' { p.into() })',
     cdf=lambda p, x: 1 - exp(-pw(x / p[0], p[1])), pdf=lambda p, x: p[1] / p[0] * pw(x / p[0], p[1] - 1) * exp(-pw(x / p[0], p[1])),
     mean=lambda p: p[0] * wg(p, 1), variance=lambda p: p[0] ** 2 * wvar(p),
     skewness=lambda p: (wg(p, 3) - 3 * wg(p, 1) * wvar(p) - wg(p, 1) ** 3) / pw(wvar(p), R(3, 2)),
     exk=lambda p: (-6 * wg(p, 1) ** 4 + 12 * wg(p, 1) ** 2 * wg(p, 2) - 3 * wg(p, 2) ** 2 - 4 * wg(p, 1) * wg(p, 3) + wg(p, 4)) / wvar(p) ** 2,
     median=lambda p: p[0] * pw(ln(R(2)), 1 / p[1]),
     modes=[(lambda p: [gt(p[1], ONE)], lambda p: [p[0] * pw((p[1] - 1) / p[1], 1 / p[1])]), (lambda p: [le(p[1], ONE)], lambda p: [R(0)])],
     entropy=lambda p: EUL * (1 - 1 / p[1]) + ln(p[0] / p[1]) + 1)

# ---------------------------------------------------------------- discrete
import math
NB = [{0: n} for n in (1, 2, 3, 5, 8)]
LARGE = {'binomial': (20, 33, 45, 61, 62, 63, 64, 100, 150), 'beta_binomial': (20, 33, 45, 61, 62, 63, 64, 100, 150)}      # mass functions only
comb = lambda n, k: R(math.comb(int(n), int(k)))
xk = 'k'


def xpoints(n):
    # the middle coefficients of 57 to 62 trials are not doubles
    return range(n + 1) if n < 20 else (0, 1, 2, n // (5 if 56 < n < 63 else 2), n - 3, n - 1, n)


def iv(t):
    if t.op != "rat":
        raise TypeError("not fixed")
    return int(t.args[0])


dist('bernoulli', U('bernoulli::Bernoulli'), 'p', x='bool', xvals=lambda n: [0, 1], sup=realx,
     cdf=lambda p, k: 1 - p[0] if k == 0 else R(1), pmf=lambda p, k: p[0] if k else 1 - p[0],
     mean=lambda p: p[0], variance=lambda p: p[0] * (1 - p[0]), skewness=lambda p: (1 - 2 * p[0]) / sq(p[0] * (1 - p[0])),
     exk=lambda p: (1 - 6 * p[0] * (1 - p[0])) / (p[0] * (1 - p[0])),
     median=[(lambda p: [lt(p[0], f64(0.4999999))], lambda p: R(0)), (lambda p: [gt(p[0], f64(0.5000001))], lambda p: R(1))],
     modes=[(lambda p: [lt(p[0], f64(0.5))], lambda p: [R(0)]), (lambda p: [gt(p[0], f64(0.5))], lambda p: [R(1)]), (lambda p: [eqf(p[0], f64(0.5))], lambda p: [R(0), R(1)])],
     entropy=(lambda p: [gt(p[0], f64(1e-6)), lt(p[0], f64(0.999999))], lambda p: -(p[0] * ln(p[0])) - (1 - p[0]) * ln(1 - p[0])),
     fisher=lambda p: [[1 / (p[0] * (1 - p[0]))]])


def bbpmf(p, k):
    n = iv(p[0])
    return comb(n, k) * B(p[1] + k, p[2] + (n - k)) / B(p[1], p[2])


def bbraw(p, r):
    """r-th raw moment from the probabilities"""
    n = iv(p[0])
    def rising(a, m): return fprod([a + j for j in range(m)]) if m else R(1)
    return fsum(R(k ** r) * comb(n, k) * rising(p[1], k) * rising(p[2], n - k) / rising(p[1] + p[2], n) for k in range(1, n + 1))


def bbvar(p):
    n, a, b = p[0], p[1], p[2]
    return n * a * b * (a + b + n) / ((a + b) ** 2 * (a + b + 1))


def bbskew(p):
    n, a, b = p[0], p[1], p[2]
    return (a + b + 2 * n) * (b - a) / (a + b + 2) * sq((1 + a + b) / (n * a * b * (n + a + b)))


def bbexk(p):
    m = bbraw(p, 1)
    m2, m3, m4 = bbraw(p, 2), bbraw(p, 3), bbraw(p, 4)
    return (m4 - 4 * m * m3 + 6 * m * m * m2 - 3 * m ** 4) / (m2 - m * m) ** 2 - 3


dist('beta_binomial', U('beta_binomial::BetaBinomial'), 'nss', x='usize', nvals=[{0: n} for n in (1, 2, 3, 4, 5)], xvals=xpoints, sup=realx,
     pmf=bbpmf, mean=lambda p: p[0] * p[1] / (p[1] + p[2]), variance=bbvar, skewness=bbskew, exk=bbexk)


def bincdf(p, k):
    n = iv(p[0])
    return R(1) if k >= n else IB(1 - p[1], R(n - k), R(k + 1))


dist('binomial', U('binomial::Binomial'), 'np', ctor='Probability::new(@1).map_err(|_| ()).and_then(|p| ' + U('binomial::Binomial') + '::new(@0, p).map_err(|_| ()))',
     x='usize', nvals=NB, xvals=xpoints, sup=realx,
     cdf=bincdf, pmf=lambda p, k: comb(iv(p[0]), k) * p[1] ** k * (1 - p[1]) ** (iv(p[0]) - k),
     mean=lambda p: p[0] * p[1], variance=lambda p: p[0] * p[1] * (1 - p[1]), skewness=lambda p: (1 - 2 * p[1]) / sq(p[0] * p[1] * (1 - p[1])),
     exk=lambda p: (1 - 6 * p[1] * (1 - p[1])) / (p[0] * p[1] * (1 - p[1])), fisher=lambda p: [[p[0] / (p[1] * (1 - p[1]))]])

dist('geometric', U('geometric::Geometric'), 'p', x='u64', xvals=lambda n: (0, 1, 2, 3, 7, 20), sup=realx,
     cdf=lambda p, k: 1 - (1 - p[0]) ** (k + 1), pmf=lambda p, k: p[0] * (1 - p[0]) ** k,
     mean=lambda p: (1 - p[0]) / p[0], variance=lambda p: (1 - p[0]) / p[0] ** 2, skewness=lambda p: (2 - p[0]) / sq(1 - p[0]),
     exk=lambda p: 6 + p[0] ** 2 / (1 - p[0]), modes=lambda p: [R(0)],
     entropy=lambda p: (-((1 - p[0]) * ln(1 - p[0])) - p[0] * ln(p[0])) / p[0])

dist('poisson', U('poisson::Poisson'), 's', x='u64', xvals=lambda n: (0, 1, 2, 3, 5, 10), sup=realx,
     pmf=lambda p, k: p[0] ** k * exp(-p[0]) / R(math.factorial(k)),
     mean=lambda p: p[0], variance=lambda p: p[0], skewness=lambda p: 1 / sq(p[0]), exk=lambda p: 1 / p[0], fisher=lambda p: [[1 / p[0]]])

uw = lambda p: p[1] + 1
dist('uniform_int', U('uniform::Uniform::<i64>'), 'ik', ctor=U('uniform::Uniform::<i64>') + '::new(@0 as i64, @1 as u64)', x='i64',
     nvals=[{0: l, 1: w} for l, w in ((0, 1), (-3, 5), (2, 4), (10, 9))], xvals=lambda n: range(-4, 21), sup=realx,
     cdf=lambda p, k: R(min(max(k - iv(p[0]) + 1, 0), iv(p[1]) + 1)) / uw(p), pmf=lambda p, k: 1 / uw(p) if iv(p[0]) <= k <= iv(p[0]) + iv(p[1]) else R(0),
     mean=lambda p: p[0] + p[1] / 2, variance=lambda p: (uw(p) ** 2 - 1) / 12, skewness=lambda p: R(0), exk=lambda p: R(-6, 5) * (uw(p) ** 2 + 1) / (uw(p) ** 2 - 1),
     median=lambda p: p[0] + p[1] / 2, entropy=lambda p: ln(uw(p)))

dist('degenerate_int', U('degenerate::Degenerate::<i64>'), 'i', ctor='Ok::<_, ()>(' + U('degenerate::Degenerate::<i64>') + '::new(@0 as i64))', x='i64',
     nvals=[{0: k} for k in (-2, 0, 3)], xvals=lambda n: range(-4, 6), sup=realx,
     cdf=lambda p, k: R(int(k >= iv(p[0]))), pmf=lambda p, k: R(int(k == iv(p[0]))),
     mean=lambda p: p[0], variance=lambda p: R(0), median=lambda p: p[0], modes=lambda p: [p[0]], entropy=lambda p: R(0))


# categorical: every weight but the last is free
def catw(p): return list(p) + [1 - fsum([R(0)] + list(p))]


for n_ in (1, 2, 3, 4):
    dist('categorical%d' % n_, U('categorical::Categorical::<%d>' % n_), 'p' * (n_ - 1), x='usize', xvals=lambda n, n_=n_: range(n_), sup=realx,
         ctor=U('categorical::Categorical::<%d>' % n_) + '::new([%s])' % ', '.join(['@%d' % i for i in range(n_ - 1)] + [' - '.join(['1.0'] + ['@%d' % i for i in range(n_ - 1)])]),
         pre=lambda p: [lt(fsum([R(0)] + list(p)), ONE)], hints={'a%d' % i: (0.01, 0.9 / n_) for i in range(n_)},
         cdf=lambda p, k: fsum([R(0)] + catw(p)[:k + 1]), pmf=lambda p, k: catw(p)[k])

# ---- end cases: certain outcomes, no trials, impossible categories
NB0 = [{0: n} for n in (1, 2, 5)]
for v_ in (0, 1):
    dist('bernoulli_p%d' % v_, U('bernoulli::Bernoulli'), '', ctor=U('bernoulli::Bernoulli') + '::new(%d.0)' % v_, x='bool', xvals=lambda n: [0, 1], sup=realx, edge='bernoulli',
         cdf=lambda p, k, v_=v_: R(int(k >= v_)), pmf=lambda p, k, v_=v_: R(int(k == v_)), mean=lambda p, v_=v_: R(v_), variance=lambda p: R(0),
         median=lambda p, v_=v_: R(v_), modes=lambda p, v_=v_: [R(v_)], entropy=lambda p: R(0))
    pb = 'Probability::new(%d.0).map_err(|_| ()).and_then(|p| ' % v_ + U('binomial::Binomial') + '::new(@0, p).map_err(|_| ()))'
    dist('binomial_p%d' % v_, U('binomial::Binomial'), 'n', ctor=pb, x='usize', nvals=NB0, xvals=xpoints, sup=realx, edge='binomial',
         cdf=lambda p, k, v_=v_: R(int(k >= v_ * iv(p[0]))), pmf=lambda p, k, v_=v_: R(int(k == v_ * iv(p[0]))),
         mean=lambda p, v_=v_: v_ * p[0], variance=lambda p: R(0), median=lambda p, v_=v_: v_ * p[0], modes=lambda p, v_=v_: [v_ * p[0]])
dist('binomial_none', U('binomial::Binomial'), 'p', ctor='Probability::new(@0).map_err(|_| ()).and_then(|p| ' + U('binomial::Binomial') + '::new(0, p).map_err(|_| ()))',
     x='usize', xvals=lambda n: (0, 1, 2), sup=realx, edge='binomial', cdf=lambda p, k: R(1), pmf=lambda p, k: R(int(k == 0)),
     mean=lambda p: R(0), variance=lambda p: R(0), median=lambda p: R(0), modes=lambda p: [R(0)])
dist('beta_binomial_none', U('beta_binomial::BetaBinomial'), 'ss', ctor=U('beta_binomial::BetaBinomial') + '::new(0, @0, @1)', x='usize', xvals=lambda n: (0, 1, 2), sup=realx, edge='beta_binomial',
     pmf=lambda p, k: R(int(k == 0)), mean=lambda p: R(0), variance=lambda p: R(0))
dist('geometric_p1', U('geometric::Geometric'), '', ctor=U('geometric::Geometric') + '::new(1.0)', x='u64', xvals=lambda n: (0, 1, 2, 3, 7), sup=realx, edge='geometric',
     cdf=lambda p, k: R(1), pmf=lambda p, k: R(int(k == 0)), mean=lambda p: R(0), variance=lambda p: R(0), median=lambda p: R(0), modes=lambda p: [R(0)], entropy=lambda p: R(0))
for n_, nm_, ws_ in ((2, 'first', ('0.0', '1.0')), (2, 'last', ('1.0', '0.0'))):
    dist('categorical%d_%s' % (n_, nm_), U('categorical::Categorical::<%d>' % n_), '', x='usize', xvals=lambda n, n_=n_: range(n_), sup=realx, edge='categorical',
         ctor=U('categorical::Categorical::<%d>' % n_) + '::new([%s])' % ', '.join(ws_), cdf=lambda p, k, w=ws_: R(int(sum(float(x) for x in w[:k + 1]))), pmf=lambda p, k, w=ws_: R(int(float(w[k]))))
for nm_, j_ in (('first', 0), ('mid', 1), ('last', 2)):
    pos_ = ['@0', '1.0 - @0']
    pos_.insert(j_, '0.0')
    wz = lambda p, j_=j_: [p[0], 1 - p[0]][:j_] + [R(0)] + [p[0], 1 - p[0]][j_:]
    dist('categorical3_%s' % nm_, U('categorical::Categorical::<3>'), 'p', x='usize', xvals=lambda n: range(3), sup=realx, edge='categorical',
         ctor=U('categorical::Categorical::<3>') + '::new([%s])' % ', '.join(pos_), cdf=lambda p, k, wz=wz: fsum([R(0)] + wz(p)[:k + 1]), pmf=lambda p, k, wz=wz: wz(p)[k])

# formulas for every integer point, as functions of the parameters and the point
def LC(n, k): return LG(n + 1) - LG(k + 1) - LG(n - k + 1)


ANYX = {
    'geometric': {'cdf': lambda p, k: 1 - pw(1 - p[0], k + 1), 'pmf': lambda p, k: p[0] * pw(1 - p[0], k)},
    'poisson': {'pmf': [(lambda p, k: [lt(k, f64(255))], lambda p, k: exp(k * ln(p[0]) - p[0] - LG(k + 1))),
                        (lambda p, k: [ge(k, f64(255))], lambda p, k: exp(k * ln(p[0]) - p[0] - STIRLING(k)))]},
    'binomial': {'cdf': [(lambda p, k: [ge(k, p[0])], lambda p, k: R(1)),
                         (lambda p, k: [lt(k, p[0])], lambda p, k: IB(1 - p[1], p[0] - k, k + 1))],
                 'pmf': [(lambda p, k: [le(k, p[0]), gt(p[0], f64(62))], lambda p, k: exp(LC(p[0], k)) * pw(p[1], k) * pw(1 - p[1], p[0] - k)),
                         (lambda p, k: [gt(k, p[0])], lambda p, k: R(0))]},
    'beta_binomial': {'pmf': [(lambda p, k: [le(k, p[0]), gt(p[0], f64(62))], lambda p, k: exp(LC(p[0], k)) * B(p[1] + k, p[2] + p[0] - k) / B(p[1], p[2])),
                              (lambda p, k: [gt(k, p[0])], lambda p, k: R(0))]},
}
ANYX['uniform_int'] = {
    'cdf': [(lambda p, k: [lt(k, p[0])], lambda p, k: R(0)), (lambda p, k: [ge(k, p[0]), lt(k, p[0] + p[1])], lambda p, k: (k - p[0] + 1) / (p[1] + 1)),
            (lambda p, k: [ge(k, p[0] + p[1])], lambda p, k: R(1))],
    'pmf': [(lambda p, k: [lt(k, p[0])], lambda p, k: R(0)), (lambda p, k: [ge(k, p[0]), le(k, p[0] + p[1])], lambda p, k: 1 / (p[1] + 1)),
            (lambda p, k: [gt(k, p[0] + p[1])], lambda p, k: R(0))]}
ANYX['degenerate_int'] = {
    'cdf': [(lambda p, k: [lt(k, p[0])], lambda p, k: R(0)), (lambda p, k: [ge(k, p[0])], lambda p, k: R(1))],
    'pmf': [(lambda p, k: [lt(k, p[0])], lambda p, k: R(0)), (lambda p, k: [eqf(k, p[0])], lambda p, k: R(1)), (lambda p, k: [gt(k, p[0])], lambda p, k: R(0))]}
XBIG = {'geometric': 1 << 53, 'poisson': 1 << 53}


# ---------------------------------------------------------------- cases
def closed(I, f, *a):
    """whether a formula is defined for integer parameters that are not fixed"""
    if not I.sym:
        return True
    try:
        f(I.p(dummy(I)), *a)
        return True
    except (TypeError, ValueError):
        return False


class Inst:
    """a distribution with its integer parameters fixed"""

    def __init__(self, d, fixed):
        self.d = d
        self.fixed = fixed
        args, self.slots, na, nn = [], [], 0, 0
        for i, k in enumerate(d.kinds):
            if k in 'nki' and fixed[i] is SYM:
                args.append('N(n,%d) as usize' % nn if k != 'i' else 'N(n,%d)' % nn)
                self.slots.append(('v' if k != 'i' else 'V', nn))
                nn += 1
            elif k in 'nki':
                v = fixed[i]
                args.append('%d' % v if k != 'i' else '(%d)' % v)
                self.slots.append(('n', v))
            else:
                args.append('A(a,%d)' % na)
                self.slots.append(('a', na))
                na += 1
        self.na = na
        self.nn = nn
        self.sym = nn > 0
        c = d.ctor
        if '%s' in c:
            c = c % ', '.join(args)
        for i, x in enumerate(args):
            c = c.replace('@%d' % i, x)
        self.ctor = c
        self.tag = d.name + ''.join('_%s' % ('any' if v is SYM else str(v).replace('-', 'm')) for v in fixed.values())

    def spec(self, fn):
        return self.d.f.get(fn + '_any', self.d.f.get(fn)) if self.sym else self.d.f.get(fn)

    def p(self, c):
        return [R(v) if t == 'n' else c.a[v] if t == 'a' else tm.itof(t == 'V', c.n[v]) for t, v in self.slots]

    def pre(self, c):
        r = []
        for k, (t, v) in zip(self.d.kinds, self.slots):
            if k == 's':
                r.append(gt(c.a[v], Z))
            if k == 'p':
                r += [gt(c.a[v], Z), lt(c.a[v], ONE)]
            if t == 'v':
                r.append(between(c.n[v], 1, BIG))
            if t == 'V':
                r.append(sbetween(c.n[v], -BIG, BIG))
        if self.d.pre_extra:
            r += self.d.pre_extra(self.p(c))
        return r

    def body(self, code):
        return 'match %s { Ok(d) => { %s 1 } Err(_) => 0 }' % (self.ctor, code)


SYM = object()      # any value of an integer parameter, from 1 to BIG
BIG = 10 ** 9


def insts(only=None, few=None, sym=False, large=False, edge=True):
    for d in DISTS:
        if d.edge and not edge:
            continue
        vals = d.nvals if not few else d.nvals[:few]
        if large:
            vals = vals + [{0: n} for n in LARGE.get(d.name, ())]
        if sym and any(k in 'nki' for k in d.kinds):
            vals = vals + [{i: SYM for i, k in enumerate(d.kinds) if k in 'nki'}]
        for f in vals:
            yield Inst(d, f)


def constructed(c):
    return [] if c.ret.op == 'c' and c.ret.args[0] == 1 else [HOLDS('valid parameters construct', same(c.ret, bv(1, 64)))]


def nonfinite(t):
    """an infinity or a NaN whatever the finite operands are"""
    import math as m
    if t.op == 'c':
        v = tm.fval(t)
        return m.isinf(v) or m.isnan(v)
    if t.op in ('fadd', 'fsub', 'fmul'):
        return nonfinite(t.args[0]) or nonfinite(t.args[1])
    return t.op in ('fdiv', 'fneg', 'sqrt') and nonfinite(t.args[0])


def finite_out(c, i):
    o = c.o(i)
    return FALSE if o is not None and nonfinite(o) else TRUE


def pieces(spec, nargs):
    """-> [(suffix, condition fn or None, value fn or None)]"""
    if isinstance(spec, list):
        return [('_%d' % i, c, v) for i, (c, v) in enumerate(spec)]
    if isinstance(spec, tuple):
        return [('', spec[0], spec[1])]
    return [('', None, spec)]


def notall(conds):
    return bnot(ands(conds))


def scalar_case(I, fn, expr, spec, label, undefined=False, positive=None):
    """cases for a functional without argument"""
    out = []
    if isinstance(positive, tuple):
        positive = positive[1]
    for suf, cond, val in pieces(spec, 1):
        nm = '%s_%s%s' % (I.tag, fn, suf)
        body = I.body('O(o, 0, %s);' % expr)
        if val is not None and not closed(I, val):
            continue
        if val is not None:
            def pre(c, cond=cond):
                r = I.pre(c) + (cond(I.p(c)) if cond else [])
                if positive:
                    r.append(gt(positive(I.p(c)), Z))
                return r
            if never(pre(dummy(I))):
                continue
            out.append(RCase(nm, body, fn='%s_%s' % (I.tag, fn), na=I.na, nn=I.nn, core=False, pre=pre, hints=I.d.hints,
                             post=lambda c, val=val: constructed(c) + [EQ(label, c.o(0), val(I.p(c)))]))
        if isinstance(spec, tuple) and undefined:
            def preu(c, cond=cond):
                return I.pre(c) + [notall(cond(I.p(c)))]
            if never(preu(dummy(I))):
                continue
            out.append(RCase(nm + '_undef', body, fn='%s_%s' % (I.tag, fn), na=I.na, nn=I.nn, core=False, pre=preu, hints=I.d.hints,
                             panics=lambda c: TRUE,
                             post=lambda c: constructed(c) + [HOLDS('no finite value where %s does not exist' % label, bnot(finite_out(c, 0)))]))
    return out


def never(ts):
    """an assumption that is false whatever the inputs"""
    import num
    for t in ts:
        if t is FALSE:
            return True
        if not any(x.op == 'var' for x in tm.walk([t])):
            try:
                if not num.evaluate([t], {})[0]:
                    return True
            except num.Undefined:
                return True
    return False


def dummy(I):
    return Ctx([tm.var('a%d' % i) for i in range(I.na + 1)], [tm.var('n%d' % i, 64) for i in range(I.nn + 1)])


def arg_case(I, fn, expr, spec, label, wrap=None, sup=True, xpre=None, range01=None):
    """cases for a function of one point; expr uses {x}"""
    out = []
    if I.d.x == 'f':
        for suf, cond, val in pieces(spec, 2):
            nm = '%s_%s%s' % (I.tag, fn, suf)
            if not closed(I, val, tm.var('a%d' % I.na)):
                continue

            def pre(c, cond=cond, val=val):
                x = c.a[I.na]
                r = I.pre(c)
                if range01:
                    F = val(I.p(c), x)
                    r += [gt(F, Z)] + ([lt(F, ONE)] if range01 == 2 else [])
                if xpre:
                    r += xpre(x)
                elif sup:
                    r += I.d.sup(I.p(c), x)
                return r + (cond(I.p(c), x) if cond else [])
            v = (lambda p, x, val=val: wrap(val(p, x))) if wrap else val
            out.append(RCase(nm, I.body('O(o, 0, %s);' % expr.replace('{x}', '&A(a,%d)' % I.na).replace('{q}', 'A(a,%d)' % I.na)),
                             fn='%s_%s' % (I.tag, fn), na=I.na + 1, nn=I.nn, core=False, pre=pre, hints=I.d.hints,
                             post=lambda c, v=v: constructed(c) + [EQ(label, c.o(0), v(I.p(c), c.a[I.na]))]))
    af = fn.replace('ccdf', 'cdf').replace('log_', '')
    if af in ANYX.get(I.d.name, {}) and (I.sym or not I.fixed):
        for suf, cond, val in pieces(ANYX[I.d.name][af], 2):
            if fn.startswith('log_') and val(I.p(dummy(I)), tm.rat(1)) is R(0):
                continue
            K = lambda c, I=I: tm.itof(I.d.x == 'i64', c.n[I.nn])

            def pre(c, cond=cond, K=K):
                return I.pre(c) + [between(c.n[I.nn], 0, XBIG.get(I.d.name, BIG)) if I.d.x != 'i64' else sbetween(c.n[I.nn], -4 * BIG, 4 * BIG)] + (cond(I.p(c), K(c)) if cond else [])
            v = (lambda p, x, val=val: wrap(val(p, x))) if wrap else val
            out.append(RCase('%s_%s_anywhere%s' % (I.tag, fn, suf), I.body('O(o, 0, %s);' % expr.replace('{x}', '&(N(n,%d) as %s)' % (I.nn, I.d.x))),
                             fn='%s_%s_anywhere' % (I.tag, fn), na=I.na, nn=I.nn + 1, core=False, pre=pre, hints=I.d.hints,
                             post=lambda c, v=v, K=K: constructed(c) + [EQ(label, c.o(0), v(I.p(c), K(c)))]))
    if I.d.x != 'f' and not I.sym:
        for k in I.d.xvals(list(I.fixed.values())[0] if I.fixed else 0):
            xs = {'bool': 'true' if k else 'false'}.get(I.d.x, '(%d as %s)' % (k, I.d.x))
            out.append(RCase('%s_%s_at%s' % (I.tag, fn, str(k).replace('-', 'm')), I.body('O(o, 0, %s);' % expr.replace('{x}', '&' + xs)),
                             na=I.na, nn=I.nn, core=False, pre=I.pre, hints=I.d.hints,
                             post=lambda c, k=k: constructed(c) + [EQ(label, c.o(0), (wrap or (lambda v: v))(spec(I.p(c), k)))]))
    return out


HEAD = '''
use crate::*;
use crate::params::Param;
use crate::statistics::*;
use crate::fitting::*;
'''
