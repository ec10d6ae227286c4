"""Cases decided in exact real arithmetic over symbolic inputs: the code's
floating-point operations are read as the real operations they round, special
functions as the mathematical functions they name."""
import itertools
import math
import os
import random
import time
from fractions import Fraction as Fr

import mpmath
import z3

import build
import check
import exec as ex
import num
import real
import term as tm
from check import Case, Ctx, Result
from term import T, bv

mpf = mpmath.mpf


class RCase(Case):
    """post(c) -> obligations
        ('eq', label, x, y)    x = y
        ('ge', label, x, y)    x >= y
        ('holds', label, b)    boolean
    on every returning path, for every input satisfying pre."""
    mode = 'real'

    def __init__(self, name, body, na=0, nn=0, no=1, pre=None, post=None, tol=1e-7, hints=None, **kw):
        super().__init__(name, body, na, nn, no, pre, post, **kw)
        self.tol = tol
        self.hints = hints or {}


class RFeas:
    def __init__(self, stats):
        self.stats = stats
        self.cache = {}

    def norm(self, pc):
        k = tuple(c.id for c in pc)
        n = self.cache.get(k)
        if n is None:
            if len(self.cache) > 400:
                self.cache.clear()
            n = mknorm(pc, self.stats)
            self.cache[k] = n
        return n

    def implied(self, pc, c):
        N = self.norm(pc)
        if N.dead:
            return True
        try:
            z = N.zbool(c)
        except real.NeedSplit as s:
            if N.ask(timeout=3000) == z3.unsat:
                return True         # the path cannot happen
            p = pos(s.t)
            if s.t.sort != 'b' and any(c_ is tm.bnot(p) for c_ in pc) and any(c_ is tm.bnot(neg(s.t)) for c_ in pc):
                sv = solve_eq0(N, s.t)      # known to be zero
                if sv is None:
                    return None
                m = {sv[0].id: sv[1]}
                return self.implied(tm.subst(list(pc), m), tm.subst([c], m)[0])
            raise ex.ForkOn(next_split(pc, s.t))
        except (real.TooHard, real.Undef):
            return None
        if N.ask(z3.Not(z), timeout=3000) == z3.unsat:
            return True
        if N.ask(z, timeout=3000) == z3.unsat:
            return False
        return None


def pos(t):
    return t if t.sort == 'b' else tm.fcmp('ogt', t, tm.f64(0.0))


def neg(t):
    return tm.bnot(t) if t.sort == 'b' else tm.fcmp('olt', t, tm.f64(0.0))


def next_split(pc, t):
    p = pos(t)
    if t.sort == 'b':
        return p
    if any(c is tm.bnot(p) for c in pc):
        q = neg(t)
        if any(c is tm.bnot(q) for c in pc):
            raise ex.Unsupported('sign of %s stays open' % tm.show(t)[:80] + (' '.join(tm.show(c)[:60] for c in pc) if os.environ.get('VP_DBG') else ''))
        return q
    return p


def mknorm(pc, stats):
    N = real.Norm((), stats)
    N.skipped = 0
    todo = list(pc)
    while todo:
        left = []
        for c in todo:
            try:
                N.add_assume(c)
            except (real.TooHard, real.Undef, real.NeedSplit):
                left.append(c)
        if not left or len(left) == len(todo):
            N.skipped = len(left)
            break
        todo = left         # what is known by now may settle the signs they need
    N.obl = []
    return N


# ------------------------------------------------------------------ numeric side
def nev(ts, env):
    try:
        return num.evaluate(ts, env)
    except num.Undefined:
        return None


def holds_pc(pc, env):
    for c in pc:
        r = nev([c], env)
        if r is None or r[0] is not True and r[0] != 1:
            return False
    return True


def ztofloat(v):
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fr(a.numerator_as_long(), a.denominator_as_long())
    return None


BOX = [(0.1, 0.9), (1, 3), (3, 7), (0.2, 4), (-3, -0.2), (-1, 1), (2, 20), (0.5, 2), (8, 40), (-20, 20)]


def nice(fr, lo=None, hi=None):
    """a short number close to fr"""
    return float(fr)


def landmarks(ts):
    """the finite constants a condition mentions"""
    cs = {Fr(0), Fr(1), Fr(-1)}
    for t in tm.walk(list(ts)):
        if t.op == 'c' and t.sort == 'f':
            x = tm.fval(t)
            if math.isfinite(x) and 1e-12 < abs(x) < 1e12:
                cs.add(Fr(x).limit_denominator(10 ** 9))
    return sorted(cs)


def probe(rng, marks):
    """a small interval to look in"""
    k = rng.random()
    if k < 0.4:
        lo, hi = rng.choice(BOX)
    elif k < 0.75 and len(marks) > 1:       # inside a gap between two landmarks
        i = rng.randrange(len(marks) - 1)
        lo, hi = float(marks[i]), float(marks[i + 1])
        if lo > 0 and hi / lo > 50 or hi < 0 and lo / hi > 50:
            x = math.sqrt(lo * hi) * (1 if lo > 0 else -1)
            lo, hi = sorted((x * 0.5, x * 2))
        elif lo == 0 and rng.random() < 0.5:
            lo, hi = hi * 0.05, hi * 0.3
        else:
            w = (hi - lo) * 0.2
            lo, hi = lo + w, hi - w
    elif k < 0.85:                          # beyond a landmark
        x = float(rng.choice(marks))
        w = max(1.0, abs(x)) * rng.choice([0.01, 1, 10])
        lo, hi = (x + w * 0.3, x + w) if rng.random() < 0.5 else (x - w, x - w * 0.3)
    else:
        x = 10 ** rng.uniform(-6, 4) * rng.choice([1, 1, -1])
        lo, hi = sorted((x * 0.7, x * 1.4))
    return lo, hi


def model_points(N, zcond, vars_, rng, tries=6, timeout=2500, marks=()):
    """assignments (name -> float/int) satisfying the assumptions and zcond"""
    marks = list(marks) or [Fr(-1), Fr(0), Fr(1)]
    real_vars = [t for t in vars_ if t.sort == 'f']
    int_vars = [t for t in vars_ if t.sort != 'f']
    for k in range(tries):
        s = z3.Solver()
        s.set('timeout', timeout)
        zs = {}
        for t in real_vars:
            a = N.atom('var', t.args[0], t.args[0], t)
            zs[t.args[0]] = N.zatom(a)
        for t in int_vars:
            if t.args[0] in N.intvars:
                a = N.keys.get(('var', t.args[0]))
                zs[t.args[0]] = N.zatom(a)
        for c in N.zassume + N.extra:
            s.add(c)
        if zcond is not None:
            s.add(zcond)
        if s.check() == z3.unsat:
            break
        names = list(zs)
        rng.shuffle(names)
        if k:
            for nm in names if k % 2 else ():       # some coincide, or vanish
                if rng.random() < 0.4:
                    s.push()
                    s.add(zs[nm] == rng.choice([zs[x] for x in names if x != nm] + [z3.RealVal(0)]))
                    if s.check() != z3.sat:
                        s.pop()
            for nm in names:
                for lo, hi in [probe(rng, marks) for _ in range(6)]:
                    x = lo + (hi - lo) * rng.random()
                    s.push()
                    if rng.random() < 0.6:
                        w = abs(hi - lo) * 0.02 + 1e-9
                        s.add(zs[nm] > z3.Q(*_nd(Fr(x - w).limit_denominator(10 ** 10))),
                              zs[nm] < z3.Q(*_nd(Fr(x + w).limit_denominator(10 ** 10))))
                    else:
                        s.add(zs[nm] > z3.Q(*_nd(Fr(lo).limit_denominator(10 ** 10))),
                              zs[nm] < z3.Q(*_nd(Fr(hi).limit_denominator(10 ** 10))))
                    if s.check() == z3.sat:
                        break
                    s.pop()
        if s.check() != z3.sat:
            continue
        m = s.model()
        env = {}
        for t in vars_:
            nm = t.args[0]
            if nm not in zs:
                env[nm] = Fr(rng.randint(0, 5))
                continue
            v = ztofloat(m.eval(zs[nm], model_completion=True))
            env[nm] = Fr(1) if v is None else v
        yield env


def box_points(vars_, rng, k, hints):
    out = []
    for _ in range(k):
        env = {}
        for t in vars_:
            nm = t.args[0]
            if nm in hints:
                lo, hi = hints[nm]
            else:
                lo, hi = rng.choice(BOX)
            x = lo + (hi - lo) * rng.random()
            env[nm] = Fr(round(x)) if t.sort != 'f' else Fr(round(x, 4))
        out.append(env)
    return out


def _nd(q):
    return q.numerator, q.denominator


def numenv(vars_, env):
    """rounded to doubles / integers: what the code actually gets"""
    r = {}
    for t in vars_:
        v = env[t.args[0]]
        if t.sort == 'f':
            r[t.args[0]] = mpf(float(v))
        else:
            r[t.args[0]] = int(round(v)) & ((1 << t.sort) - 1)
    return r


def close(x, y, tol):
    if mpmath.isinf(x) or mpmath.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(abs(x), abs(y)) + mpf(10) ** -11


UNWRITTEN = 0x7ff4dead0000beef      # a NaN no code makes


def concrete(case, nat, vars_, env, draws, fill=None):
    """run natively; -> (ret, outs floats, outs ints, Ctx on constants)"""
    a, n = check.inputs(case)
    av = [tm.fval(t) if t.op == 'c' else float(env[t.args[0]]) for t in a]
    nv = [t.args[0] if t.op == 'c' else int(env[t.args[0]]) for t in n]
    dv = []
    for k, kind, v, p in draws:
        x = env[v.args[0]]
        dv.append(float(x) if k == 'f' else float(tm.sgn(int(x), 64)))
    ret, of, oi = nat.call(case.fn, av, nv, max(1, case.no), dv, fill)
    ca = [tm.f64(x) for x in av]
    cn = [bv(x, 64) for x in nv]
    lg = nat.log() if draws else []
    cd = []
    for i, ((k, kind, v, p), x) in enumerate(zip(draws, dv)):
        if i < len(lg):         # what the native run asked for
            kind, fp_, ip = lg[i]
            p = [tm.f64(y) for y in fp_] if k == 'f' else [tm.f64(fp_[0]), tm.f64(fp_[1]), bv(ip[0], 64), bv(ip[1], 64)]
        cd.append((k, kind, tm.f64(x) if k == 'f' else bv(int(x), 64), p))
    outs = [(None, None) if fill is not None and w == fill else (tm.fbits(w & (2 ** 64 - 1)), bv(w, 64)) for w in oi]
    return av, nv, dv, ret, of, oi, Ctx(ca, cn, bv(ret, 64), outs, cd)


def judge_ob(ob, cenv, tol):
    """True broken / False fine / None cannot tell. ob over constants and cenv"""
    kind = ob[0]
    if kind == 'holds':
        r = nev([ob[2]], cenv)
        return None if r is None else not r[0]
    y = nev([ob[3]], cenv)
    x = nev([ob[2]], cenv)
    if y is None:
        return None
    y = y[0]
    if x is None:
        return not mpmath.isinf(y)
    x = x[0]
    if mpmath.isnan(x):
        return True
    if kind == 'eq':
        return not close(x, y, tol)
    if kind == 'ge':
        return bool(x < y and not close(x, y, tol))


# ------------------------------------------------------------------ deciding
class Leaf:
    def __init__(self, pc, sub):
        self.pc, self.sub = pc, sub


def solve_eq0(N, t):
    """t = 0 solved for a variable: (var T, term) or None"""
    try:
        E = N.canon(N.nf(t))
        E, _ = N.together(E)
    except Exception:
        return None
    for m, c in E.items():
        if len(m) == 1 and m[0][1] == 1 and N.atoms[m[0][0]].kind == 'var' and N.atoms[m[0][0]].t.op == 'var':
            a = m[0][0]
            rest = {k: v for k, v in E.items() if k != m}
            term = N.to_term(real.escale(rest, Fr(-1) / c))
            if any(x is N.atoms[a].t for x in tm.walk([term])):
                continue
            return N.atoms[a].t, term
    return solve_int0(N, E)


def solve_int0(N, E):
    """a linear equation with unit coefficient among the integer inputs"""
    ints = {}
    for m, c in E.items():
        if len(m) == 0:
            continue
        t = N.atoms[m[0][0]].t
        if len(m) != 1 or m[0][1] != 1 or t is None or t.op not in ('sitofp', 'uitofp') or t.args[0].op != 'var':
            return None
        ints[m] = t.args[0]
    for m, v in ints.items():
        c = E[m]
        rest = {k: Fr(x) * (Fr(-1) / c) for k, x in E.items() if k != m}
        if any(x.denominator != 1 for x in rest.values()) or any(ints[k].sort != v.sort or ints[k] is v for k in rest if len(k)):
            continue
        mask = (1 << v.sort) - 1
        e = tm.bv(0, v.sort)
        for k, x in sorted(rest.items(), key=str):
            t = tm.bv(int(x) & mask, v.sort)
            e = tm.ibin('add', e, t if len(k) == 0 else ints[k] if x == 1 else tm.ibin('mul', t, ints[k]))
        return v, e
    return None


def decide(case, pc, ob, R, cands, deadline, sub=(), depth=0):
    """-> 'ok' | 'open' ; appends candidate generators to cands"""
    if time.time() > deadline:
        raise ex.Unsupported('out of time')
    N = mknorm(pc, R.stats)
    if N.dead or N.ask() == z3.unsat:
        return 'ok'
    if ob[0] == 'eq' and ob[2] is ob[3]:
        return 'ok'             # one and the same expression
    le = {(c.args[0], c.args[1]) for c in pc if c.op == 'fle'}
    for a, b in sorted(le, key=lambda t: (t[0].id, t[1].id)):
        if a.id < b.id and (b, a) in le and depth <= 7:
            sv = solve_eq0(N, a - b)        # squeezed between equal bounds
            if sv is not None:
                mp_ = {sv[0].id: sv[1]}
                return decide(case, tm.subst(list(pc), mp_), (ob[0], ob[1]) + tuple(tm.subst(list(ob[2:]), mp_)), R, cands, deadline, sub + (sv,), depth + 1)

    def split(t):
        if depth > 7:
            cands.append((N, None, sub))
            return 'open: too many splits'
        res = 'ok'
        known_pos = any(c is tm.bnot(pos(t)) for c in pc)
        brs = [pos(t), neg(t)]
        for b in brs:
            if N.ask(*_zb(N, b)) == z3.unsat:
                continue
            r = decide(case, pc + [b], ob, R, cands, deadline, sub, depth + 1)
            if r != 'ok':
                res = r
        if t.sort != 'b':
            z = None
            try:
                z = N.zcmp('==', N.nf(t))
            except Exception:
                pass
            if z is not None and N.ask(z) != z3.unsat:
                sv = solve_eq0(N, t)
                if sv is None and t.op not in ('sf_gamma', 'exp'):      # these are never zero
                    R.notes.append('%s: boundary %s = 0' % (case.name, tm.show(t)[:100]))
                elif sv is not None:
                    v, e = sv
                    mp_ = {v.id: e}
                    pc2 = tm.subst(list(pc), mp_)
                    ob2 = (ob[0], ob[1]) + tuple(tm.subst(list(ob[2:]), mp_))
                    r = decide(case, pc2, ob2, R, cands, deadline, sub + ((v, e),), depth + 1)
                    if r != 'ok':
                        res = r
        return res
    try:
        if ob[0] == 'holds':
            zc = z3.Not(N.zbool(ob[2]))
        elif ob[0] == 'panic':
            zc = z3.BoolVal(True)
        else:
            x = N.nf(ob[2])
            obl = list(N.obl)
            y = N.nf(ob[3])
            d = real.eadd(x, y, Fr(-1))
            num_, _ = N.together(d)
            if ob[0] == 'eq':
                zc = z3.BoolVal(False) if not num_ else N.zcmp('!=', d)
            else:
                zc = z3.BoolVal(False) if not num_ else N.zcmp('<', d)
            seen = set()
            for kind, E in obl:
                k = (kind, N.key(E))
                if k in seen:
                    continue
                seen.add(k)
                R.defined += 1
                try:
                    z = N.zcmp({'nonzero': '==', 'positive': '<=', 'sqrt': '<'}[kind], E)
                except Exception:
                    R.defined_open += 1
                    continue
                if N.ask(z, timeout=2000) == z3.unsat:
                    continue
                R.defined_open += 1
                cands.append((N, z, sub))
    except real.NeedSplit as s:
        return split(s.t)
    except real.Undef as e:
        if N.ask(*N.facts(), timeout=case.timeout // 3) == z3.unsat:
            return 'ok'
        cands.append((N, None, sub))
        return 'open: never defined (%s)' % e
    except real.TooHard as e:
        cands.append((N, None, sub))
        return 'open: %s' % e
    except z3.Z3Exception as e:
        cands.append((N, None, sub))
        return 'open: solver: %s' % e
    r = N.ask(zc, timeout=case.timeout // 3)
    if r == z3.unsat:
        return 'ok'
    if ob[0] == 'eq' and N.same_up_to_constants(x, y):
        R.notes.append('%s: %s equal up to the rounding of constants the compiler folded' % (case.name, ob[1]))
        return 'ok'
    f = N.facts()
    if f and N.ask(zc, *f, timeout=case.timeout // 3) == z3.unsat:
        return 'ok'
    cands.append((N, zc, sub))
    return 'open: %s' % r


def _zb(N, b):
    try:
        return [N.zbool(b)]
    except Exception:
        return []


def try_points(case, nat, o, ob_index, label, N, zc, sub, vars_, rng, R, deadline):
    """candidate inputs replayed on the real code -> replay dict or None"""
    free = [t for t in vars_ if all(t is not v for v, _ in sub)]
    pts = itertools.chain(model_points(N, zc, free, rng, tries=24, marks=landmarks(o.pc)), box_points(free, rng, 40, case.hints))
    for env in pts:
        if time.time() > deadline:
            return None
        r = try_env(case, nat, o, label, sub, vars_, free, env, R)
        if r is not None:
            return r
    return None


def onpath(case, c, o=None):
    """what a postcondition may remember from one path of a case to the next"""
    c.mem = case.__dict__.setdefault('mem', {})
    if o is not None:
        c.pc = list(o.pc)
    return c


def try_env(case, nat, o, label, sub, vars_, free, env, R):
    ne = numenv(free, env)
    for v, e in reversed(sub):
        x = nev([e], ne)
        if x is None:
            return None
        ne[v.args[0]] = mpf(float(x[0])) if v.sort == 'f' else x[0]
    full = dict(ne)
    if not holds_pc(o.pc, full):
        return None
    av, nv, dv, ret, of, oi, c = concrete(case, nat, vars_, full, o.draws)
    if o.kind != 'ret':
        if ret != build.Native.PANIC:
            return None
        ok = nev([case.panics(c)], {}) if case.panics else [False]
        if ok and ok[0]:
            return None
        return replay(case, av, nv, dv, 'panicked')
    if ret == build.Native.PANIC:
        return None
    a, n = check.inputs(case)
    sym = case.post(onpath(case, Ctx(a, n, o.ret, o.outs, o.draws), o))
    con = case.post(onpath(case, c))
    for so, co in zip(sym, con):
        if so[1] != label:
            continue
        bad = judge_ob(co, {}, case.tol)
        if not bad:
            continue
        # the exact reading must disagree as well: rounding alone is not a violation
        if judge_ob(so, full, 1e-10) is False:
            continue
        with mpmath.workdps(150):
            if judge_ob(so, full, 1e-10) is False:
                continue
        d = 'returned %d, out=%s' % (ret, of)
        if co[0] != 'holds':
            y = nev([co[3]], {})
            x = nev([co[2]], {})
            d += '; %s: got %s, want %s%s' % (label, x and mpmath.nstr(x[0], 12), '>= ' if co[0] == 'ge' else '',
                                              y and mpmath.nstr(y[0], 12))
        return replay(case, av, nv, dv, d)
    return None


def replay(case, av, nv, dv, desc):
    return dict(fn=case.fn, a=av, n=nv, draws=dv, observed=desc, what=case.what)


def hunt(case, nat, rng, seconds=8):
    """code that cannot be encoded is at least run: gross and repeated disagreement
    (or a panic) at admissible inputs is reported, anything less is left undecided"""
    if 'Rg' in case.body or case.dpre:
        return []
    a, n = check.inputs(case)
    vs = [t for t in a + n if t.op == 'var']
    pre = [p for p in (case.pre(Ctx(a, n)) if case.pre else []) if not (p.op == 'c' and p.args[0])]
    t0, bad, tried = time.time(), {}, 0
    for env in box_points(vs, rng, 4000 if vs else 1, case.hints):
        if time.time() - t0 > seconds or tried >= 300:
            break
        ne = numenv(vs, env)
        if not holds_pc(pre, ne):
            continue
        tried += 1
        av, nv, dv, ret, of, oi, c = concrete(case, nat, vs, ne, [], UNWRITTEN)
        if nat.log():
            return []           # draws are not followed here
        if ret == build.Native.PANIC:
            ok = nev([case.panics(c)], {}) if case.panics else [False]
            if ok and not ok[0]:
                bad.setdefault('does not panic', []).extend([replay(case, av, nv, dv, 'panicked')] * 3)
            continue
        try:
            obs = case.post(c)
        except Exception:
            continue
        for ob in obs:
            if ob[0] not in ('eq', 'ge') or any(x is None for x in ob) or not judge_ob(ob, {}, 1e-3):
                continue
            with mpmath.workdps(150):
                if not judge_ob(ob, {}, 1e-3):
                    continue
                x, y = nev([ob[2]], {}), nev([ob[3]], {})
            if x is None or y is None or not mpmath.isfinite(x[0]) or abs(x[0]) > 1e6 or abs(y[0]) > 25 or abs(x[0] - y[0]) < 1e-6:
                continue        # out of the range where doubles can be trusted
            bad.setdefault(ob[1], []).append(replay(case, av, nv, dv, 'returned %d, out=%s; %s: got %s, want %s' % (
                ret, of, ob[1], x and mpmath.nstr(x[0], 12), y and mpmath.nstr(y[0], 12))))
    return [(l, hs[0]) for l, hs in bad.items() if len(hs) >= max(min(3, tried), tried // 5)]


def validate(case, R, outs, vars_, nat, rng, feas):
    """the encoding against the native build at concrete inputs"""
    done = 0
    for o in outs:
        if done >= 3:
            break
        N = feas.norm(o.pc)
        vs = [t for t in vars_ if not (t.args[0].startswith('draw') or t.args[0].startswith('idraw'))] + \
            [d[2] for d in o.draws]
        pts = itertools.chain(box_points(vs, rng, 12, case.hints), model_points(N, None, vs, rng, tries=3))
        for env in pts:
            ne = numenv(vs, env)
            if not holds_pc(o.pc, ne):
                continue
            if o.kind == 'ret':
                R.reached = True
            elif case.panics:
                R.reached = True
            try:
                av, nv, dv, ret, of, oi, c = concrete(case, nat, vs, ne, o.draws)
            except Exception:
                continue
            done += 1
            if not R.samples:
                R.samples.append({'case': case.name, 'a': [repr(x) for x in av], 'n': nv, 'draws': dv})
            if o.kind != 'ret':
                if ret == build.Native.PANIC:
                    R.validated += 1
                else:
                    R.mismatch.append('%s: encoding panics, native returns at %s %s' % (case.name, av, nv))
                break
            if ret == build.Native.PANIC:
                R.mismatch.append('%s: native panics, encoding returns at %s %s %s' % (case.name, av, nv, dv))
                break
            good = True
            rv = nev([o.ret], ne)
            if rv is not None and rv[0] != ret & (2 ** 64 - 1):
                good = False
            for (f, w), x, xi in zip(o.outs, of, oi):
                if f is None or w is None:
                    continue
                if f.op == 'bits2f' or (w.op != 'f2bits' and w.op != 'c'):
                    v = nev([w], ne)
                    if v is not None and v[0] != xi & (2 ** 64 - 1):
                        good = False
                    continue
                v = nev([f], ne)
                if v is None:
                    continue
                if math.isnan(x) or math.isinf(x):
                    continue        # overflow or a removable singularity in doubles
                if not close(mpf(x), v[0], 1e-5):
                    good = False
            if good:
                R.validated += 1
            else:
                R.mismatch.append('%s: encoding and native build differ at %s %s %s: %s' % (case.name, av, nv, dv, of))
            break


def spot(case, o, ob, feas, vars_, rng, R):
    """a proved equation looked at in numbers"""
    if ob[0] not in ('eq', 'ge') or ob[2] is ob[3]:
        return None
    seen = 0
    for env in itertools.chain(box_points(vars_, rng, 10, case.hints), model_points(feas.norm(o.pc), None, vars_, rng, tries=2)):
        ne = numenv(vars_, env)
        if not holds_pc(o.pc, ne):
            continue
        seen += 1
        if judge_ob(ob, ne, 1e-9):
            with mpmath.workdps(80):
                if judge_ob(ob, ne, 1e-9):
                    return {k: str(v)[:12] for k, v in ne.items()}
        if seen >= 2:
            break
    return None


def run_real(case, mod, nat, deadline, tier):
    R = Result(case)
    R.defined = R.defined_open = 0
    t0 = time.time()
    rng = random.Random('%s/%s' % (os.environ.get('VERIF_SEED', '1'), case.name))
    feas = RFeas(R.stats)
    try:
        if os.environ.get('VP_HUNT'):
            raise ex.Unsupported('left out on request')
        E, a, n, outs = check.execute(case, mod, feas, split_select=True, deadline=deadline, split_ints=True)
    except ex.Unsupported as e:
        R.undecided.append('%s: not encodable: %s' % (case.name, e))
        R.violations += [(case.name + ': ' + l, h) for l, h in hunt(case, nat, rng)]
        return R
    R.paths, R.instructions = len(outs), E.instructions
    R.dbg = E.debug_ids()
    R.functions = sorted(E.functions)
    base = [t for t in a + n if t.op == 'var']
    for o in outs:
        vars_ = base + [d[2] for d in o.draws]
        if feas.norm(o.pc).dead:
            continue
        if o.kind == 'ret':
            obs = case.post(onpath(case, Ctx(a, n, o.ret, o.outs, o.draws), o))
        elif o.kind == 'panic' and case.panics:
            obs = [('holds', 'does not panic', case.panics(Ctx(a, n)))]
        else:
            obs = [('panic', 'does not panic' if o.kind == 'panic' else 'stays defined')]
        for ob in obs:
            R.obligations += 1
            cands = []
            if ob[0] == 'open':
                R.undecided.append('%s: %s' % (case.name, ob[1]))
                continue
            if any(x is None for x in ob):
                R.violations.append((case.name + ': ' + ob[1], replay(case, [], [], [], 'output never written')))
                continue
            try:
                r = decide(case, list(o.pc), ob, R, cands, deadline)
            except ex.Unsupported as e:
                r = 'open: %s' % e
            hit = None
            for N, zc, sub in cands[:12]:
                hit = try_points(case, nat, o, None, ob[1], N, zc, sub, vars_, rng, R, deadline)
                if hit:
                    break
            if hit:
                R.violations.append((case.name + ': ' + ob[1], hit))
            elif r == 'ok':
                bad = spot(case, o, ob, feas, vars_, rng, R)
                if bad:     # the prover's own arithmetic is watched
                    R.mismatch.append('%s: %s was proved but fails at %s' % (case.name, ob[1], bad))
                    hit = try_points(case, nat, o, None, ob[1], feas.norm(o.pc), None, (), vars_, rng, R, deadline)
                    if hit:
                        R.violations.append((case.name + ': ' + ob[1], hit))
                        continue
                R.discharged += not bad
            else:
                R.undecided.append('%s: %s (%s)' % (case.name, ob[1], r))
    try:
        validate(case, R, outs, base, nat, rng, feas)
    except ex.Unsupported:
        pass
    R.wall = time.time() - t0
    return R


RCase.runner = staticmethod(run_real)
