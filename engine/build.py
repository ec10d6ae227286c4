"""Builds the code of /repo two ways, from its current working tree:
  ir():     the crate + generated harness functions -> textual LLVM IR, parsed;
  native(): the same crate + harness functions as a shared library for replay
            (real special functions, real BLAS/LAPACK, scripted random draws)."""
import ctypes
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

ENV = dict(os.environ)
ENV['PATH'] = '/usr/local/cargo/bin:/root/.cargo/bin:/usr/local/bin:' + ENV.get('PATH', '')
ENV.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', OPENBLAS_NUM_THREADS='1', RUSTFLAGS='', CARGO_ENCODED_RUSTFLAGS='')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)
os.environ['OPENBLAS_NUM_THREADS'] = '1'


class BuildError(Exception):
    pass


CORE_LIB = '''#![allow(dead_code, unused)]
extern crate failure;
extern crate rand;
extern crate rand_distr;
extern crate num;
extern crate special_fun;
mod consts;
mod utils;
#[macro_use]
pub mod params;
pub mod normal {
    pub(crate) mod linalg;
}
'''

PRELUDE = '''
#![allow(unused, non_snake_case)]
macro_rules! h {
    ($name:ident($a:ident, $n:ident, $o:ident) $body:block) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($a: *const f64, $n: *const i64, $o: *mut f64) -> i64 {
            @CALL@
        }
    };
}
#[inline(always)] unsafe fn A(a: *const f64, i: usize) -> f64 { *a.add(i) }
#[inline(always)] unsafe fn N(n: *const i64, i: usize) -> i64 { *n.add(i) }
#[inline(always)] unsafe fn O(o: *mut f64, i: usize, v: f64) { *o.add(i) = v }
#[inline(always)] unsafe fn OI(o: *mut f64, i: usize, v: i64) { *(o as *mut i64).add(i) = v }
'''
MISSING_IR = 'extern "C" { pub fn vp_missing() -> !; } '
MISSING_NATIVE = 'pub unsafe fn vp_missing() -> ! { panic!("a function that does not compile") } '
CALL_IR = '$body'
CALL_NATIVE = '''match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> i64 { $body })) {
                Ok(v) => v,
                Err(_) => i64::MIN,
            }'''

QUEUE = '''
pub mod vp_queue {
    pub static mut Q: Vec<f64> = Vec::new();
    pub static mut P: usize = 0;
    pub static mut LOG: Vec<([f64; 4], [i64; 2])> = Vec::new();
    #[no_mangle] pub unsafe extern "C" fn vp_set_queue(p: *const f64, n: i64) {
        std::panic::set_hook(Box::new(|_| {}));
        let q = &mut *std::ptr::addr_of_mut!(Q);
        q.clear();
        for i in 0..n as usize { q.push(*p.add(i)); }
        P = 0;
        (*std::ptr::addr_of_mut!(LOG)).clear();
    }
    unsafe fn next() -> f64 {
        let q = &*std::ptr::addr_of!(Q);
        if P >= q.len() { panic!("out of draws"); }
        P += 1;
        q[P - 1]
    }
    #[no_mangle] pub unsafe extern "C" fn vp_draw(k: u32, a: f64, b: f64, c: f64) -> f64 {
        (*std::ptr::addr_of_mut!(LOG)).push(([k as f64, a, b, c], [0, 0]));
        next()
    }
    #[no_mangle] pub unsafe extern "C" fn vp_draw_int(k: u32, a: f64, b: f64, lo: i64, hi: i64) -> i64 {
        (*std::ptr::addr_of_mut!(LOG)).push(([k as f64, a, b, 0.0], [lo, hi]));
        next() as i64
    }
    #[no_mangle] pub unsafe extern "C" fn vp_get_log(i: i64, o: *mut f64, n: *mut i64) -> i64 {
        let l = &*std::ptr::addr_of!(LOG);
        if (i as usize) < l.len() {
            let e = l[i as usize];
            for j in 0..4 { *o.add(j) = e.0[j]; }
            for j in 0..2 { *n.add(j) = e.1[j]; }
        }
        l.len() as i64
    }
}
'''


SERDE = False       # build with the crate's serde feature


def _cargo_toml(native, core):
    deps = ['failure', 'rand', 'rand_distr'] + ([] if core else ['spaces'])
    s = '[package]\nname = "rstat"\nversion = "0.6.0"\nedition = "2018"\n'
    if native:
        s += 'build = "build.rs"\n'
    s += '[workspace]\n[lib]\npath = "src/lib.rs"\n'
    s += 'crate-type = ["%s"]\n' % ('cdylib' if native else 'rlib')
    s += '[dependencies]\n'
    for d in deps:
        s += '%s = { path = "%s/stubs/%s" }\n' % (d, VERIF, d)
    s += 'num = "0.4"\nblas = { version = "0.22", default-features = false }\n'
    s += 'lapack = { version = "0.19", default-features = false }\n'
    if native:
        s += 'special-fun = "0.2"\n'
    else:
        s += 'special-fun = { path = "%s/stubs/special_fun" }\n' % VERIF
    if SERDE:
        s += 'serde_crate = { package = "serde", version = "1.0", default-features = false, features = ["std", "derive"], optional = true }\n'
        s += '[features]\ndefault = ["serde"]\nserde = ["serde_crate"]\n'
    s += '[profile.release]\ndebug = false\nincremental = false\noverflow-checks = true\n'
    s += 'panic = "%s"\n' % ('unwind' if native else 'abort')
    s += 'opt-level = %d\n' % (1 if native else 3)
    s += 'codegen-units = %d\n' % (16 if native else 1)
    return s


def _put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def fn_bodies(text):
    """(line of the header, offset of the opening brace, offset past the closing one) of every function with a body"""
    t = list(text)
    i, n = 0, len(text)
    while i < n:       # blank comments, strings and character literals
        if text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
        elif text.startswith('/*', i):
            j, d = i + 2, 1
            while j < n and d:
                if text.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif text.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            j += 1
        else:
            m = re.compile(r"'(\\[^']+|[^'\\])'").match(text, i)
            if not m:
                i += 1
                continue
            j = m.end()
        for k in range(i, min(j, n)):
            if t[k] != '\n':
                t[k] = ' '
        i = j
    t = ''.join(t)
    out = []
    for m in re.finditer(r'\bfn\s+\w+', t):
        j, d = m.end(), 0
        while j < n and not (d <= 0 and t[j] in '{;'):
            d += {'(': 1, '[': 1, ')': -1, ']': -1}.get(t[j], 0)
            j += 1
        if j >= n or t[j] == ';':
            continue
        k, d = j + 1, 1
        while k < n and d:
            d += {'{': 1, '}': -1}.get(t[k], 0)
            k += 1
        out.append((t.count('\n', 0, m.start()) + 1, j, k))
    return out


MISSING = '{ unsafe { crate::vp_harness::vp_missing() } }'


def stub_out(text, line):
    """text without the body of the innermost function around the line, or without the `use` there; None if there is neither"""
    best = None
    for l, a, b in fn_bodies(text):
        if l <= line <= text.count('\n', 0, b) + 1 and text[a:b].rstrip('\n') and (best is None or a > best[0]):
            best = (a, b)
    if best:
        a, b = best
        if MISSING in text[a:b]:
            return None
        return text[:a] + MISSING + '\n' * text.count('\n', a, b) + text[b:]
    for m in re.finditer(r'(?m)^[ \t]*use\s[^;]*;', text):
        a, b = m.span()
        if text.count('\n', 0, a) + 1 <= line <= text.count('\n', 0, b) + 1:
            return text[:a] + '\n' * text.count('\n', a, b) + text[b:]
    return None


def _prepare(d, native, core, harness, drop=(), edits=()):
    edits = dict(edits)
    src = os.path.join(d, 'src')
    if os.path.isdir(src):
        shutil.rmtree(src)
    os.makedirs(src)
    for e in os.listdir(os.path.join(REPO, 'src')):
        if e in ('lib.rs', 'main.rs', 'bin', 'vp_harness.rs'):
            continue
        if e == 'univariate' and drop:
            # modules that do not compile are left out; everything else is still checked
            shutil.copytree(os.path.join(REPO, 'src', e), os.path.join(src, e))
            m = os.path.join(src, e, 'mod.rs')
            t = open(m).read()
            for x in drop:
                t = re.sub(r'(?m)^\s*pub mod %s;' % re.escape(x), '', t)
            open(m, 'w').write(t)
            continue
        if any(f.startswith('src/%s/' % e) for f in edits):
            shutil.copytree(os.path.join(REPO, 'src', e), os.path.join(src, e))
            continue
        os.symlink(os.path.join(REPO, 'src', e), os.path.join(src, e))
    for f, t in edits.items():
        p = os.path.join(d, f)
        if os.path.islink(p):
            os.unlink(p)
        if f != 'src/lib.rs':
            with open(p, 'w') as fh:
                fh.write(t)
    if core:
        lib = CORE_LIB
    else:
        lib = '#![allow(warnings)] ' + (edits.get('src/lib.rs') or open(os.path.join(REPO, 'src', 'lib.rs')).read())
    lib += '\n#[path = "vp_harness.rs"]\nmod vp_harness;\n'
    _put(os.path.join(src, 'lib.rs'), lib)
    h = PRELUDE + (MISSING_NATIVE if native else MISSING_IR)
    h = h.replace('@CALL@', CALL_NATIVE if native else CALL_IR) + harness
    if native:
        h += QUEUE
    _put(os.path.join(src, 'vp_harness.rs'), h)
    _put(os.path.join(d, 'Cargo.toml'), _cargo_toml(native, core))
    lock = os.path.join(VERIF, 'stubs', 'Cargo.lock.%s.%s' % ('native' if native else 'ir', 'core' if core else 'serde' if SERDE else 'full'))
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    if native:
        _put(os.path.join(d, 'build.rs'), 'fn main() { println!("cargo:rustc-link-lib=openblas"); }\n')


def _run(cmd, d, target):
    env = dict(ENV)
    env['CARGO_TARGET_DIR'] = target
    cmd = cmd[:2] + ['--message-format=json'] + cmd[2:]
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        spans, txt = [], []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            msg = m.get('message')
            if not isinstance(msg, dict) or msg.get('level') != 'error':
                continue
            txt.append(msg.get('rendered') or msg.get('message'))
            for s in msg.get('spans', []):
                if s.get('is_primary'):
                    while s.get('expansion') and not s['file_name'].endswith('vp_harness.rs'):
                        s = s['expansion']['span']
                    spans.append((s['file_name'], s['line_start']))
        e = BuildError('\n'.join(txt)[-6000:] or r.stderr[-6000:])
        e.spans = spans
        raise e


def ir_text(tag, harness, core, drop=(), edits=()):
    d = os.path.join(BUILD, tag, 'ir')
    _prepare(d, False, core, harness, drop, edits)
    target = os.path.join(BUILD, 'target-ir')
    out = os.path.join(d, 'out.ll')
    if os.path.exists(out):
        os.unlink(out)
    cmd = ['cargo', 'rustc', '--release', '--offline', '--lib', '--', '--cap-lints=allow', '--emit=llvm-ir=' + out,
           '-Cno-vectorize-loops', '-Cno-vectorize-slp', '-Cpanic=abort', '-Coverflow-checks=on', '-Cdebuginfo=line-tables-only']
    _run(cmd, d, target)
    return open(out).read()


def native_lib(tag, harness, core, drop=(), edits=()):
    d = os.path.join(BUILD, tag, 'native')
    _prepare(d, True, core, harness, drop, edits)
    target = os.path.join(BUILD, 'target-native')
    _run(['cargo', 'rustc', '--release', '--offline', '--lib', '--', '--cap-lints=allow', '-Cdebuginfo=0'], d, target)
    so = os.path.join(target, 'release', 'librstat.so')
    dst = os.path.join(d, 'librstat-%d.so' % os.getpid())
    for f in os.listdir(d):
        if f.endswith('.so'):
            os.unlink(os.path.join(d, f))
    shutil.copy(so, dst)
    return dst


def _job(a):
    f, args = a
    try:
        return ('ok', f(*args))
    except BuildError as e:
        return ('err', str(e), getattr(e, 'spans', []))


def build_unit(tag, helpers, fns, core, pool):
    """fns: {harness function: body}. Harness functions and univariate modules
    that do not compile are left out. -> (ir text, native path, {fn: reason left out}, dropped modules)"""
    fns = dict(fns)
    lost, drop, edits, gone = {}, set(), {}, []
    for _ in range(24):
        head = 'use crate::*;\n' + helpers + '\n'
        text, where = head, {}
        base = PRELUDE.replace('@CALL@', CALL_IR).count('\n'), PRELUDE.replace('@CALL@', CALL_NATIVE).count('\n')
        for f, b in fns.items():
            st = text.count('\n')
            text += 'h!(%s(a, n, o) { %s });\n' % (f, b)
            where[f] = (st, text.count('\n') - 1)
        r = pool.map(_job, [(ir_text, (tag, text, core, tuple(drop), tuple(edits.items()))), (native_lib, (tag, text, core, tuple(drop), tuple(edits.items())))], 1)
        if r[0][0] == 'ok' and r[1][0] == 'ok':
            return r[0][1], r[1][1], lost, [('module univariate::%s' % m) for m in sorted(drop)] + gone
        if os.environ.get('VP_DBG'):
            print(next(r[k][1] for k in (0, 1) if r[k][0] != 'ok')[:3000])
        hit = False
        msg, seen = '', set()
        for k in (0, 1):
            if r[k][0] == 'ok':
                continue
            msg = r[k][1]
            for fn, line in r[k][2]:
                if fn.endswith('vp_harness.rs'):
                    l = line - 1 - base[k]
                    for f, (x, y) in where.items():
                        if x <= l <= y and f in fns:
                            del fns[f]
                            lost[f] = 'harness does not compile against this tree'
                            hit = True
                elif fn.startswith('src/'):
                    if (fn, line) in seen:
                        continue
                    # a function that does not compile: every path into it stays undecided
                    seen.add((fn, line))
                    try:
                        t = edits.get(fn) or open(os.path.join(REPO, fn)).read()
                    except OSError:
                        continue
                    t2 = stub_out(t, line)
                    if t2:
                        edits[fn] = t2
                        gone.append('code at %s:%d' % (fn, line))
                        hit = True
                        continue
                m = re.search(r'src/univariate/(\w+)\.rs$', fn)
                if m and m.group(1) != 'mod' and not core and m.group(1) not in drop:
                    drop.add(m.group(1))
                    hit = True
        if not hit:
            raise BuildError(msg)
    raise BuildError('too many rounds: ' + msg)


class Native:
    PANIC = -(1 << 63)

    def __init__(self, path):
        self.path = path
        self.lib = ctypes.CDLL(path)

    def call(self, name, a=(), n=(), no=8, draws=(), fill=None):
        """-> (ret, floats, raw ints); ret PANIC if it panicked"""
        f = getattr(self.lib, name)
        f.restype = ctypes.c_int64
        A = (ctypes.c_double * max(1, len(a)))(*a)
        N = (ctypes.c_int64 * max(1, len(n)))(*[x - (1 << 64) if x >> 63 and x > 0 else x for x in n])
        O = (ctypes.c_double * max(1, no))()
        D = (ctypes.c_double * max(1, len(draws)))(*draws)
        self.lib.vp_set_queue(D, ctypes.c_int64(len(draws)))
        raw = ctypes.cast(O, ctypes.POINTER(ctypes.c_int64))
        for i in range(no if fill is not None else 0):
            raw[i] = fill
        r = f(A, N, O)
        return r, [O[i] for i in range(no)], [raw[i] for i in range(no)]

    def log(self):
        """the random draws the last call asked for: [(kind, (a, b, c), (lo, hi))]"""
        r, i = [], 0
        o, n = (ctypes.c_double * 4)(), (ctypes.c_int64 * 2)()
        while i < self.lib.vp_get_log(ctypes.c_int64(i), o, n):
            r.append((int(o[0]), (o[1], o[2], o[3]), (n[0], n[1])))
            i += 1
        return r


def source_digest():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
