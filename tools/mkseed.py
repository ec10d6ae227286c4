#!/usr/bin/env python3
"""Seeded bugs from tools/seeds.py -> seeded/<id>/.  mkseed.py [id ...] [--check]
--check: demo passes on the clean tree, fails with the patch; the stable tests
still pass; and reports whether the property's check catches it."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MK_REPO', '/repo')     # a scratch copy will do for everything but the stable tests
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS

TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
build = "build.rs"
[workspace]
[lib]
name = "rstat"
path = "%s"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
failure = { path = "stubs/failure" }
rand = { path = "stubs/rand" }
rand_distr = { path = "stubs/rand_distr" }
spaces = { path = "stubs/spaces" }
num = "0.4"
blas = { version = "0.22", default-features = false }
lapack = { version = "0.19", default-features = false }
special-fun = "0.2"
'''
SERDE = '''serde_crate = { package = "serde", version = "1.0", default-features = false, features = ["std", "derive"], optional = true }
[features]
default = ["serde"]
serde = ["serde_crate"]
'''
CORE = '''#![allow(warnings)]
extern crate num; extern crate special_fun;
#[path = "@REPO@/src/consts.rs"] pub mod consts;
#[path = "@REPO@/src/utils.rs"] pub mod utils;
#[macro_use]
#[path = "@REPO@/src/params/mod.rs"] pub mod params;
pub mod normal {
    #[path = "@REPO@/src/normal/linalg.rs"] pub(crate) mod linalg;
    pub mod la {
        use super::linalg as l;
        pub fn cholesky<const N: usize>(m: [[f64; N]; N]) -> [[f64; N]; N] { unsafe { l::cholesky(m) } }
        pub fn inverse_lt<const N: usize>(m: [[f64; N]; N]) -> [[f64; N]; N] { unsafe { l::inverse_lt(m) } }
        pub fn mm_square<const N: usize>(m: &[[f64; N]; N]) -> [[f64; N]; N] { unsafe { l::mm_square(m) } }
        pub fn mv_mult<const N: usize>(m: &[[f64; N]; N], v: [f64; N]) -> [f64; N] { unsafe { l::mv_mult(m, v) } }
    }
}
'''
DEMO = '''#!/bin/bash
# compiles the crate from the working directory against small stand-ins for the
# dependencies that cannot be fetched, and runs main.rs
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/crate" "$T/crate"
cp "$D/main.rs" "$T/crate/main.rs"
sed -i "s#@REPO@#$R#g" "$T/crate/Cargo.toml" "$T/crate"/*.rs
cd "$T/crate" || exit 2
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 OPENBLAS_NUM_THREADS=1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS=-Awarnings
cargo run --offline -q
'''
QUEUE = '''
// random draws come from this queue (the stand-in generator reads it)
mod q {
    use std::cell::RefCell;
    thread_local! { static Q: RefCell<Vec<f64>> = RefCell::new(vec![]); pub static LOG: RefCell<Vec<(u32, f64, f64, f64)>> = RefCell::new(vec![]); }
    pub fn set(v: &[f64]) { Q.with(|q| *q.borrow_mut() = v.iter().rev().cloned().collect()); LOG.with(|l| l.borrow_mut().clear()) }
    pub fn log() -> Vec<(u32, f64, f64, f64)> { LOG.with(|l| l.borrow().clone()) }
    fn next() -> f64 { Q.with(|q| q.borrow_mut().pop().unwrap_or(0.5)) }
    #[no_mangle] pub extern "C" fn vp_draw(k: u32, a: f64, b: f64, c: f64) -> f64 { LOG.with(|l| l.borrow_mut().push((k, a, b, c))); next() }
    #[no_mangle] pub extern "C" fn vp_draw_int(k: u32, a: f64, b: f64, lo: i64, hi: i64) -> i64 { LOG.with(|l| l.borrow_mut().push((k, a, b, hi as f64))); next() as i64 }
}
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/crate')
    for st in ('failure', 'failure_derive', 'rand', 'rand_distr', 'spaces'):
        shutil.copytree(os.path.join(V, 'stubs', st), d + '/crate/stubs/' + st, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    core = s.get('core')
    open(d + '/crate/Cargo.toml', 'w').write(TOML % ('core.rs' if core else '@REPO@/src/lib.rs') + (SERDE if s.get('serde') else ''))
    if core:
        open(d + '/crate/core.rs', 'w').write(CORE)
    shutil.copy(os.path.join(V, 'stubs', 'Cargo.lock.native.serde' if s.get('serde') else 'Cargo.lock.native.full'), d + '/crate/Cargo.lock')
    t = open(d + '/crate/Cargo.lock').read().replace('name = "rstat"\nversion = "0.6.0"', 'name = "demo"\nversion = "0.1.0"')
    open(d + '/crate/Cargo.lock', 'w').write(t)
    open(d + '/crate/build.rs', 'w').write('fn main() { println!("cargo:rustc-link-lib=openblas"); }\n')
    open(d + '/main.rs', 'w').write('#![allow(warnings)]\n' + s['demo'] + QUEUE)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    if os.path.exists(d + '/patch.diff'):
        return
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo dirty'
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
    finally:
        sh('git -C %s checkout -- .' % REPO)


def check(s):
    d = os.path.join(V, 'seeded', s['id'])
    r0 = sh(d + '/demo.sh', cwd=REPO)
    msg = []
    if r0.returncode:
        msg.append('DEMO FAILS ON CLEAN TREE\n' + r0.stdout[-1500:])
    a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    try:
        if a.returncode:
            return s['id'] + ': DOES NOT APPLY ' + a.stdout
        r1 = sh(d + '/demo.sh', cwd=REPO)
        if not r1.returncode or 'error[' in r1.stdout or 'could not compile' in r1.stdout:
            msg.append('DEMO WITH PATCH: rc=%d\n%s' % (r1.returncode, r1.stdout[-1500:]))
        if REPO == '/repo' and sh('bash /opt/vp/build.sh').returncode:
            msg.append('BUILD FAILS')
        if REPO == '/repo':
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            res = json.load(open('/tmp/seedtest.json'))
            ps = set(res.get('passed', res.get('pass', [])))
            if not base <= ps:
                msg.append('TESTS: %s' % (base - ps))
        old = sh('git -C %s show a8f2438:' % REPO + s['edits'][0][0]).stdout
        for l in open(d + '/patch.diff').read().splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in old.splitlines():
                msg.append('NOT AN ORIGINAL LINE: ' + l)
        c = sh('VP_REPO=' + REPO + ' VERIF_SEED=1 VERIF_TIER=quick python3-vt run.py %s' % s['property'], cwd=V)
        caught = c.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in c.stdout
        head = [l for l in c.stdout.splitlines() if l.startswith('  ')][:2]
        msg.append(('caught' if caught else 'MISSED rc=%d\n%s' % (c.returncode, c.stdout[-600:])) + ' ' + ' | '.join(head)[:200])
    finally:
        sh('git -C %s checkout -- .' % REPO)
    return '%s [%s]: %s' % (s['id'], s['property'], '; '.join(msg))


if __name__ == '__main__':
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        make(s)
        if '--check' in sys.argv:
            print(check(s), flush=True)
