"""Check runner: cases -> symbolic execution -> solver queries -> replay."""
import json
import math
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import sys
import time
import traceback

import z3

import build
import exec as ex
import fp
import ir
import term as tm
from ir import I, DOUBLE
from term import T

VERIF = build.VERIF
MEMLIMIT = 5 << 30
CASE_LIMIT = {'quick': 120, 'thorough': 900}
NCPU = int(os.environ.get('VP_JOBS', '8'))


class Case:
    """One harness function and what must hold of it.

    body      Rust body of h!(name(a, n, o) {...}), returning i64
    na,nn,no  sizes of the arrays (floats in, ints in, words out)
    pre(c)    list of boolean terms assumed
    post(c)   list of (label, boolean term) that must hold on every returning path
    panics(c) boolean term: inputs on which a panic is the documented answer
              (None: never). Inputs outside must not panic; `must_panic` likewise.
    fix       {'n0': 3} inputs replaced by constants
    """
    mode = 'fp'

    def __init__(self, name, body, na=0, nn=0, no=1, pre=None, post=None, panics=None, fix=None, what='',
                 abstract=('fmul', 'fdiv', 'frem', 'fadd', 'fsub', 'sqrt'), timeout=60000, fn=None, cond=None,
                 max_paths=4000, core=None, dpre=None):
        self.dpre = dpre            # dpre(draws): assumptions on the draws made
        self.core = core
        self.name, self.body, self.na, self.nn, self.no = name, body, na, nn, no
        self.pre, self.post, self.panics, self.fix = pre, post, panics, fix or {}
        self.what, self.abstract, self.timeout = what, abstract, timeout
        self.fn = fn or name        # harness function (several cases may share one)
        self.cond = cond
        self.max_paths = max_paths
        self.abstract_always = False


class Ctx:
    """what pre/post see"""

    def __init__(self, a, n, ret=None, outs=None, draws=()):
        self.a, self.n, self.ret, self.outs, self.draws = a, n, ret, outs, draws

    def o(self, i):
        return self.outs[i][0]

    def oi(self, i):
        return self.outs[i][1]


class Result:
    def __init__(self, case):
        self.case = case
        self.obligations = self.discharged = 0
        self.paths = self.instructions = 0
        self.functions = []
        self.dbg = set()
        self.stats = fp.Stats()
        self.violations = []        # (label, replay dict)
        self.undecided = []
        self.reached = False
        self.error = None
        self.validated = 0
        self.samples = []
        self.notes = []
        self.mismatch = []
        self.defined = self.defined_open = 0
        self.wall = 0.0


def out_cells(e, st, oreg, no):
    """float and int views of the output words"""
    r = []
    for i in range(no):
        p = e.padd(oreg, 8 * i)
        v = e.load(st, DOUBLE, p)
        if v is ex.UNDEF:
            r.append((None, None))
            continue
        w = e.load(st, I(64), p)
        r.append((v, w))
    return r


def inputs(case):
    a = [tm.var('a%d' % i) for i in range(case.na)]
    n = [tm.var('n%d' % i, 64) for i in range(case.nn)]
    for k, v in case.fix.items():
        i = int(k[1:])
        if k[0] == 'a':
            a[i] = tm.f64(v)
        else:
            n[i] = tm.bv(v, 64)
    return a, n


def execute(case, mod, feas, pc=(), split_select=False, deadline=None, **kw):
    a, n = inputs(case)
    regs = {}

    def setup(e, st):
        A = e.new_region(st, 8 * max(case.na, 1), 'a')
        N = e.new_region(st, 8 * max(case.nn, 1), 'n')
        O = e.new_region(st, 8 * max(case.no, 1), 'o')
        for i, v in enumerate(a):
            e.store(st, DOUBLE, v, e.padd(A, 8 * i))
        for i, v in enumerate(n):
            e.store(st, I(64), v, e.padd(N, 8 * i))
        regs['O'] = O
        return [A, N, O]
    E = ex.Executor(mod, feas, split_select=split_select, max_paths=case.max_paths, deadline=deadline, **kw)
    c0 = Ctx(a, n)
    pre = list(case.pre(c0)) if case.pre else []
    pre = [p for p in pre if not (p.op == 'c' and p.args[0])]
    outs = E.run(case.fn, None, setup, list(pc) + pre)
    for o in outs:
        if case.dpre:
            o.pc = list(o.pc) + [p for p in case.dpre(o.draws) if not (p.op == 'c' and p.args[0])]
        o.outs = None
        if o.kind == 'ret':
            o.outs = out_cells(E, o.state, regs['O'], case.no)
    return E, a, n, outs


def solve(conds, abstract, timeout, stats, want_model=True):
    """-> (z3 result, model, lowering)"""
    low = fp.Lower(abstract)
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in conds:
        s.add(low(c))
    t = time.time()
    r = s.check()
    stats.add(r, time.time() - t)
    return r, (s.model() if r == z3.sat else None), low


def concrete_ctx(case, m, low, outcome):
    av, nv, dv = [], [], []
    a, n = inputs(case)
    for t in a:
        av.append(tm.fval(t) if t.op == 'c' else fp.model_value(m, low.var(t)))
    for t in n:
        nv.append(t.args[0] if t.op == 'c' else fp.model_value(m, low.var(t)))
    for k, kind, v, p in outcome.draws:
        x = fp.model_value(m, low.var(v))
        dv.append(float(tm.sgn(x, 64)) if k == 'i' else x)
    return av, nv, dv


def judge(case, nat, av, nv, dv, label=None):
    """replay natively; -> (broken?, description)"""
    ret, of, oi = nat.call(case.fn, av, nv, max(1, case.no), dv)
    a = [tm.f64(x) if not math.isnan(x) else tm.fbits(0x7ff8000000000000) for x in av]
    n = [tm.bv(x, 64) for x in nv]
    c = Ctx(a, n)
    if ret == build.Native.PANIC:
        ok = case.panics(c) if case.panics else tm.boolc(False)
        r = ev(ok)
        return (r is False), 'panicked'
    draws = [('i' if False else 'f', None, tm.f64(x), ()) for x in dv]
    c = Ctx(a, n, tm.bv(ret, 64), [(tm.fbits(w & (2 ** 64 - 1)), tm.bv(w, 64)) for w in oi], draws)
    bad = []
    for l, t in case.post(c):
        if ev(t) is False:
            bad.append(l)
    desc = 'returned %d, out=%s' % (ret, [w if abs(w) < 1 << 52 else f for f, w in zip(of, oi)])
    return bool(bad), (desc + ' breaks ' + ', '.join(bad) if bad else desc)


class Unev(Exception):
    pass


def ev(t):
    """evaluate a closed boolean term exactly"""
    low = fp.Lower()
    z = z3.simplify(low(t))
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(low(t))
    r = s.check()
    if r == z3.unsat:
        return False
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(z3.Not(low(t)))
    if s.check() == z3.unsat:
        return True
    return None


def validate_fp(case, R, outs, av, nv, dv, nat):
    """the encoding at a concrete input against the native build"""
    a, n = inputs(case)
    m = {}
    for t, v in zip(a, av):
        if t.op == 'var':
            m[t.id] = tm.f64(v) if not math.isnan(v) else tm.fbits(0x7ff8000000000000)
    for t, v in zip(n, nv):
        if t.op == 'var':
            m[t.id] = tm.bv(v, 64)
    ret, of, oi = nat.call(case.fn, av, nv, max(1, case.no), dv)
    for o in outs:
        mm = dict(m)
        for (k, kind, v, p), x in zip(o.draws, dv):
            mm[v.id] = tm.f64(x) if k == 'f' else tm.bv(int(x), 64)
        pc = tm.subst(list(o.pc), mm)
        r = ev(tm.ands(pc))
        if r is None:
            return
        if r is False:
            continue
        if o.kind != 'ret':
            if ret != build.Native.PANIC:
                R.mismatch.append('%s: the encoding panics on %s %s, the native build returns' % (case.name, av, nv))
            else:
                R.validated += 1
            return
        if ret == build.Native.PANIC:
            R.mismatch.append('%s: the native build panics on %s %s, the encoding returns' % (case.name, av, nv))
            return
        want = [tm.icmp('eq', o.ret, tm.bv(ret, 64))]
        for (f, w), x in zip(o.outs, oi):
            if w is not None:
                want.append(tm.icmp('eq', w, tm.bv(x, 64)) if f is None or f.op in ('bits2f',) else
                            tm.bor(tm.icmp('eq', w, tm.bv(x, 64)), tm.band(tm.fcmp('uno', f, f), tm.fcmp('uno', tm.fbits(x & (2 ** 64 - 1)), tm.fbits(x & (2 ** 64 - 1))))))
        if case.abstract_always:
            R.validated += 1
            return
        r = ev(tm.ands(tm.subst(want, mm)))
        if r is True:
            R.validated += 1
        elif r is False:
            R.mismatch.append('%s: encoding and native build differ on %s %s' % (case.name, av, nv))
        return


def run_fp(case, mod, nat, deadline, tier):
    R = Result(case)
    t0 = time.time()
    feas = fp.Feas(R.stats, 5000, case.abstract)
    E, a, n, outs = execute(case, mod, feas, deadline=deadline)
    R.paths, R.instructions = len(outs), E.instructions
    R.dbg = E.debug_ids()
    R.functions = sorted(E.functions)
    pre = case.pre(Ctx(a, n)) if case.pre else []
    for o in outs:
        if o.kind == 'ret':
            c = Ctx(a, n, o.ret, o.outs, o.draws)
            obs = case.post(c)
        else:
            c = Ctx(a, n)
            ok = case.panics(c) if (case.panics and o.kind == 'panic') else tm.boolc(False)
            obs = [('does not panic' if o.kind == 'panic' else 'stays defined', ok)]
        if not R.reached and (o.kind == 'ret' or case.panics):
            r, m, low = solve(o.pc, case.abstract, case.timeout, R.stats)
            if r == z3.sat:
                R.reached = True
                try:
                    av, nv, dv = concrete_ctx(case, m, low, o)
                    R.samples.append({'case': case.name, 'a': [repr(x) for x in av], 'n': nv, 'draws': dv})
                    validate_fp(case, R, outs, av, nv, dv, nat)
                except Unev:
                    pass
        for label, ob in obs:
            R.obligations += 1
            if ob.op == 'c' and ob.args[0]:
                # decided by the term constructors; still confirmed below
                pass
            got = None
            for abstract in ([case.abstract, ()] if case.abstract else [()]):
                r, m, low = solve(o.pc + [tm.bnot(ob)], abstract, case.timeout, R.stats)
                if r == z3.unsat:
                    got = 'ok'
                    break
                if r == z3.sat:
                    # candidate: replay
                    av, nv, dv = concrete_ctx(case, m, low, o)
                    bad, desc = judge(case, nat, av, nv, dv)
                    if bad:
                        got = 'bad'
                        R.violations.append((case.name + ': ' + label, dict(
                            fn=case.fn, a=[float(x).hex() if math.isfinite(x) else repr(x) for x in av], n=nv,
                            draws=dv, observed=desc, what=case.what)))
                        break
                    got = None
            if got == 'ok':
                R.discharged += 1
            elif got is None:
                R.undecided.append('%s: %s (%s)' % (case.name, label, r))
            if time.time() > deadline:
                R.undecided.append('%s: out of time' % case.name)
                break
    # translator validation: concrete points of the paths found
    R.wall = time.time() - t0
    return R


_G = {}


def _worker(i):
    case = _G['cases'][i]
    try:
        nat = _G.get('nat')
        if nat is None or _G.get('natpid') != os.getpid():
            if not os.environ.get('VP_SERIAL'):
                for fd in (1, 2):        # cephes reports domain errors on the terminal
                    os.dup2(os.open(os.devnull, os.O_WRONLY), fd)
            import resource          # a query that outgrows this is given up, not the sandbox
            resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, MEMLIMIT))
            nat = build.Native(_G['natpath'])
            _G['nat'], _G['natpid'] = nat, os.getpid()
        deadline = min(_G['deadline'], time.time() + _G['case_limit'])
        return i, case.runner(case, _G['mod'], nat, deadline, _G['tier'])
    except ex.Unsupported as e:
        R = Result(case)
        R.undecided.append('%s: not encodable: %s' % (case.name, e))
        return i, R
    except Exception:
        R = Result(case)
        R.error = traceback.format_exc()
        return i, R


Case.runner = staticmethod(run_fp)


def strip(R):
    R.case = R.case.name
    return R


def _worker2(i):
    i, R = _worker(i)
    return i, strip(R)


def _serve(c, other):
    other.close()
    n = 0
    while True:
        try:
            i = c.recv()
        except EOFError:
            return
        if i is None:
            return
        c.send(_worker2(i))


def run_cases(cases, mod, natpath, tier, deadline, case_limit):
    _G.update(cases=cases, mod=mod, natpath=natpath, tier=tier, deadline=deadline, case_limit=case_limit)
    _G.pop('nat', None)
    if os.environ.get('VP_SERIAL'):
        return [_worker2(i)[1] for i in range(len(cases))]
    ctx = mp.get_context('fork')
    res = [None] * len(cases)
    todo = list(range(len(cases)))[::-1]
    live = {}           # connection -> [process, case under way, started]

    def lost(i, why):
        R = Result(cases[i])
        R.undecided.append('%s: %s' % (cases[i].name, why))
        res[i] = strip(R)

    def feed(c):
        if todo and live[c][3] < 8:
            live[c][1:] = [todo.pop(), time.time(), live[c][3] + 1]
            c.send(live[c][1])
        else:               # workers are replaced now and then, to give memory back
            c.send(None)
            live.pop(c)
            c.close()
            if todo:
                start()

    def drop(c):
        p = live.pop(c)[0]
        p.kill()
        p.join()
        c.close()

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b, a), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0, 0]
        feed(a)
    for _ in range(min(NCPU, len(cases))):
        start()
    while live:
        for c in mpc.wait(list(live), timeout=1.0):
            try:
                i, R = c.recv()
                res[i] = R
            except (EOFError, OSError):         # the worker ended: its case is given up, the rest go on
                i = live[c][1]
                drop(c)
                lost(i, 'the worker ran out of memory or crashed')
                if todo:
                    start()
                continue
            feed(c)
        now = time.time()
        for c in list(live):
            p, i, t, _ = live[c]
            if now - t > case_limit + 20 or now > deadline + 20:
                drop(c)
                lost(i, 'out of time')
                if todo:
                    start()
        if now > deadline + 20:
            while todo:
                lost(todo.pop(), 'out of time')
    return res


# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key[4:] if key.startswith('key=') else key, text))
    return out


def main(prop, title, cases, core, tier, bounds, assumptions, limit=None, helpers='', level='model_checking'):
    t0 = time.time()
    limit = limit or (700 if tier == 'quick' else 3000)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for c in cases:
        if c.core is None:
            c.core = core
    res = {}
    lost_notes = []
    enc = set(), set()          # functions and source lines executed symbolically
    ctx = mp.get_context('fork')
    tb = 0.0
    hs = helpers if isinstance(helpers, dict) else {True: helpers, False: helpers}
    for unit in (True, False):
        cs = [c for c in cases if c.core == unit]
        if not cs:
            continue
        fns = {}
        for c in cs:
            if c.fn not in fns or not fns[c.fn]:
                fns[c.fn] = c.body
        t1 = time.time()
        with ctx.Pool(2) as pool:
            try:
                text, natpath, lost, drop = build.build_unit(prop + ('-core' if unit else '-full'), hs[unit], fns, unit, pool)
            except build.BuildError as e:
                print('BUILD FAILED\n' + str(e))
                for c in cs:
                    R = Result(c)
                    R.undecided.append(c.name + ': the code does not build')
                    res[c.name] = R
                lost_notes.append('unit did not build')
                continue
        tb += time.time() - t1
        for m in drop:
            lost_notes.append('%s does not compile and was left out' % m)
        mod = ir.Module(text)
        run = [c for c in cs if c.fn not in lost]
        for c in cs:
            if c.fn in lost:
                R = Result(c)
                R.undecided.append(c.name + ': ' + lost[c.fn])
                res[c.name] = R
        ids = set()
        for c, R in zip(run, run_cases(run, mod, natpath, tier, t0 + limit, CASE_LIMIT[tier])):
            res[c.name] = R
            ids |= R.dbg
        for e, new in zip(enc, mod.source(ids)):
            e |= new
    for l in lost_notes:
        print('NOTE ' + l)
    if all(R.undecided and not R.obligations for R in res.values()):
        print('nothing could be decided')
        finish(prop, title, cases, [res[c.name] for c in cases], tier, seed, bounds, assumptions, t0, tb, level, enc)
        return 3
    return finish(prop, title, cases, [res[c.name] for c in cases], tier, seed, bounds, assumptions, t0, tb, level, enc)


def finish(prop, title, cases, res, tier, seed, bounds, assumptions, t0, tb, level, enc):
    own = lambda f: f.startswith('src/') and os.path.exists(os.path.join(build.REPO, f))
    fset = ['%s:%d %s' % (f, l, n) for f, l, n in sorted(enc[0]) if own(f)]
    nlines = {}
    for f, l in enc[1]:
        if own(f) and l:
            nlines.setdefault(f, set()).add(l)
    if os.environ.get('VP_COV'):
        json.dump({f: sorted(v) for f, v in nlines.items()}, open(os.environ['VP_COV'], 'w'))
    tot = dict(obligations=0, discharged=0, paths=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, validated=0, defined=0, defined_open=0)
    stime = 0.0
    mism = []
    viol, und, err, samples, unreached, excl = [], [], [], [], [], []
    for c, R in zip(cases, res):
        tot['obligations'] += R.obligations
        tot['discharged'] += R.discharged
        tot['paths'] += R.paths
        tot['instructions'] += R.instructions
        tot['validated'] += R.validated
        tot['defined'] += R.defined
        tot['defined_open'] += R.defined_open
        for k in ('queries', 'sat', 'unsat', 'unknown'):
            tot[k] += getattr(R.stats, k)
        stime += R.stats.time
        viol += R.violations
        mism += R.mismatch
        und += R.undecided
        if R.error:
            err.append((c.name, R.error))
            und.append(c.name + ': internal error: ' + R.error.strip().splitlines()[-1])
        excl += R.notes
        if R.samples:
            samples += R.samples[:1]
        if not R.reached and not R.error and not R.undecided and not R.violations:
            unreached.append(c.name)
    kn = known(prop)
    new, seen = [], []
    for label, rep in viol:
        hit = next((k for k in kn if label == k[0]), None)
        if hit:
            seen.append(hit)
        else:
            new.append((label, rep))
    cov = dict(
        states=tot['paths'], transitions=tot['instructions'], traces_validated_against_impl=tot['validated'],
        samples=samples[:12], cases=len(cases), obligations=tot['obligations'], discharged=tot['discharged'],
        solver_queries=tot['queries'], solver_sat=tot['sat'], solver_unsat=tot['unsat'],
        solver_unknown=tot['unknown'], solver_seconds=round(stime, 2), build_seconds=round(tb, 2),
        definedness_conditions=tot['defined'], definedness_open=tot['defined_open'],
        functions_encoded=fset, source_lines_encoded={f: len(v) for f, v in sorted(nlines.items())}, bounds=bounds, encoding_mismatches=mism, undecided=und, not_reached=unreached, excluded=sorted(set(excl)),
        known_findings=[k[0] for k in seen], source_digest=build.source_digest(),
        what_counts='states = symbolic paths explored; transitions = IR instructions executed symbolically; '
                    'traces_validated_against_impl = concrete inputs on which the encoding was evaluated and '
                    'compared with the native build')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for n, e in err:
        print('ERROR in case %s\n%s' % (n, e))
    print('%s: %d cases, %d paths, %d/%d obligations discharged, %d queries (%.1fs solver), %d undecided, wall %.1fs'
          % (prop, len(cases), tot['paths'], tot['discharged'], tot['obligations'], tot['queries'], stime, len(und),
             time.time() - t0))
    for u in mism:
        print('ENCODING-MISMATCH ' + u)
    for u in und:
        print('UNDECIDED ' + u)
    for n in unreached:
        print('NOT-REACHED ' + n)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k[0], k[1]))
    if new:
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, prop + '.json')
        with open(p, 'w') as f:
            json.dump([dict(label=l, **r) for l, r in new], f, indent=1, default=str)
        for l, r in new[:40 if not os.environ.get('VP_ALL') else None]:
            print('  %s  %s' % (l, {k: v for k, v in r.items() if k not in ('what', 'fn')}))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if len(err) * 2 > len(cases):
        return 3
    return 0
