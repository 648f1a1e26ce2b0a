#!/usr/bin/env python3
"""Plants the bugs of tools/plants.py in a scratch copy of /repo, confirms each (builds, stable tests pass, its
demonstration tells the two trees apart) and writes /verif/seeded/<id>/.   plant.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plants import PLANTS

RUST_DEMO = r'''#!/bin/sh
# Builds the program beside it against the crate in ./core and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
ronda = { path = "$repo/core", package = "libronda" }
T
cd "$t"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS="--cfg ronda_verif -Awarnings" CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline --quiet
timeout 60 "$t/target/debug/demo" "$t"
'''
PY_DEMO = r'''#!/bin/sh
# Builds the Python extension in ./python and runs the script beside it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS="-Awarnings" CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline --quiet --locked --manifest-path "$repo/python/Cargo.toml"
mkdir "$t/ronda"
cp "$t"/target/debug/lib*.so "$t/ronda/_ronda.so"
touch "$t/ronda/__init__.py"
cd "$t"
PYTHONPATH="$t" PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 "$here/demo.py"
'''
PRE = '''#![allow(unused_imports)]
use ronda::verif_hooks::{Spec, VersionSpec};
use ronda::*;
use std::convert::TryFrom;
fn v(s: &str) -> Version { s.parse().unwrap() }
fn t(s: &str) -> ConstraintTree { treeify(s).unwrap() }
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, executable='/bin/bash', cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    want = sys.argv[1:]
    root = '/tmp/plantwork'
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    work = root + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', work])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s; ' % (work, work)
    try:
        for p in PLANTS:
            if want and p['id'] not in want or not want and os.path.isdir(os.path.join(V, 'seeded', p['id'])):
                continue
            sh('git checkout -q -- .', work)
            d = root + '/' + p['id']
            os.mkdir(d)
            kind = 'py' if 'py' in p else 'rs'
            if kind == 'rs':
                body = p['demo']
                open(d + '/main.rs', 'w').write(PRE + (body if 'fn main' in body else 'fn main() {\n' + body + '\n}\n'))
            else:
                open(d + '/demo.py', 'w').write(p['py'])
            open(d + '/demo.sh', 'w').write(RUST_DEMO if kind == 'rs' else PY_DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            clean = sh('sh %s/demo.sh' % d, work)
            bad = None
            for f, old, new in p['edits']:
                path = os.path.join(work, f)
                s = open(path).read()
                if s.count(old) != 1:
                    bad = '%d occurrences of %r' % (s.count(old), old)
                open(path, 'w').write(s.replace(old, new, 1))
            if bad:
                print(p['id'], 'EDIT', bad)
                continue
            open(d + '/patch.diff', 'w').write(sh('git diff', work).stdout)
            b = sh(env + 'cargo build --workspace --locked --offline', work)
            if b.returncode:
                print(p['id'], 'BUILD', b.stdout[-1500:])
                continue
            log = root + '/test.log'
            sh(env + 'cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 > %s 2>&1' % log, work)
            sh('python3 /opt/vp/results.py %s/out.json cargo:%s' % (root, log), work)
            missing = stable - set(json.load(open(root + '/out.json'))['passed'])
            broken = sh('sh %s/demo.sh' % d, work)
            ok = clean.returncode == 0 and broken.returncode != 0 and not missing and 'could not compile' not in broken.stdout
            print(p['id'], 'OK' if ok else 'NO', 'clean', clean.returncode, 'broken', broken.returncode, 'missing', sorted(missing)[:3])
            if not ok:
                print(clean.stdout[-800:], '\n---\n', broken.stdout[-800:])
                continue
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            out = os.path.join(V, 'seeded', p['id'])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            sys.stdout.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
