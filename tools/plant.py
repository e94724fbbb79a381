#!/usr/bin/env python3
"""Writes and confirms planted bugs.

usage: plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts with
  id, property, needs, what_it_breaks
  edits: [(file, old, new)], each old text occurring exactly once
  and one of
    values: body of `fn values() -> Vec<f64>`, compared with what the unchanged tree gives
    main:   a whole main.rs which exits nonzero (panics) when the behaviour is wrong
  optional: features (feature list of the sgp4 dependency, None for the default ones),
            tol (relative tolerance of `values`), deps (further dependency lines)

Works in a scratch copy of /repo, which it removes. For every bug: the patch applies,
the existing tests still pass with it, the demo passes without and fails with it.
"""
import os, re, shutil, subprocess, sys, json, tempfile

SEEDED = '/verif/seeded'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
ENV.pop('RUSTFLAGS', None)

DEMO = '''#!/bin/bash
# Exits 0 if the library behaves as it should, nonzero otherwise.
# Runs in the directory of the library; builds a small program in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
library=$(pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "${scratch:?}"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sgp4 = { path = "$library"%FEATURES% }
%DEPS%
END
cd "$scratch" || exit 2
CARGO_TARGET_DIR="$scratch/target" cargo build --offline --quiet || exit 2
timeout 120 "$scratch/target/debug/demo"
'''

VALUES = '''// The values below were computed with the library in its original state.
const EXPECTED: &[f64] = &[%EXPECTED%];

%PRELUDE%
fn values() -> Vec<f64> {
%BODY%
}

fn main() {
    let values = values();
    if std::env::var_os("DEMO_PRINT").is_some() {
        println!("{}", values.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>().join(", "));
        return;
    }
    assert_eq!(values.len(), EXPECTED.len());
    for (value, expected) in values.iter().zip(EXPECTED) {
        let error = (value - expected).abs();
        assert!(
            error <= %TOL% * (1.0 + expected.abs()),
            "{} instead of {}", value, expected
        );
    }
}
'''

PRELUDE = '''#[allow(dead_code)]
fn orbit(incl: f64, node: f64, ecc: f64, perigee: f64, anomaly: f64, n: f64) -> sgp4::Orbit {
    sgp4::Orbit {
        inclination: incl.to_radians(),
        right_ascension: node.to_radians(),
        eccentricity: ecc,
        argument_of_perigee: perigee.to_radians(),
        mean_anomaly: anomaly.to_radians(),
        mean_motion: n,
    }
}

#[allow(dead_code)]
fn flat(prediction: sgp4::Prediction) -> Vec<f64> {
    let mut values = prediction.position.to_vec();
    values.extend(prediction.velocity.iter().map(|v| v * 1000.0));
    values
}
'''


def sh(cmd, cwd, **kw):
    env = dict(ENV, **kw.pop('env', {}))
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo, target):
    failed, text = [], ''
    for cmd in ['cargo test --workspace --no-fail-fast --offline',
                'cargo test --no-fail-fast --offline --no-default-features --features libm,alloc,serde --lib --test propagate',
                'cargo build --offline --no-default-features --features libm --lib',
                'cargo build --offline --no-default-features --features libm,alloc --lib',
                'cargo build --offline --no-default-features --features std --lib']:
        r = sh(cmd, repo, env={'CARGO_TARGET_DIR': target})
        text += r.stdout
        failed += re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M)
        if 'could not compile' in r.stdout or ('build' in cmd and r.returncode):
            failed.append('COMPILE')
            break
    return [f for f in failed if not (f.startswith('src/lib.rs - (line'))], text


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    scratch = tempfile.mkdtemp(prefix='plant-')
    target = os.path.join(scratch, 'target')
    ok = True
    try:
        repo = os.path.join(scratch, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for bug in spec['BUGS']:
            if only and bug['id'] not in only:
                continue
            ok &= one(bug, repo, target)
    finally:
        shutil.rmtree(scratch)
    sys.exit(0 if ok else 1)


def one(bug, repo, target):
    out = os.path.join(SEEDED, bug['id'])
    os.makedirs(out, exist_ok=True)
    features = bug.get('features')
    demo = DEMO.replace('%FEATURES%', '' if features is None else
                        ', default-features = false, features = [%s]' % ', '.join('"%s"' % f for f in features))
    demo = demo.replace('%DEPS%', '\n'.join(bug.get('deps', [])))
    path = os.path.join(out, 'demo.sh')
    open(path, 'w').write(demo)
    os.chmod(path, 0o755)
    main_rs = os.path.join(out, 'main.rs')
    if 'main' in bug:
        open(main_rs, 'w').write(bug['main'].lstrip('\n'))
    else:
        text = VALUES.replace('%PRELUDE%', PRELUDE).replace('%BODY%', bug['values'].strip('\n'))
        text = text.replace('%TOL%', bug.get('tol', '1e-9'))
        open(main_rs, 'w').write(text.replace('%EXPECTED%', ''))
        r = sh(['bash', path], repo, env={'DEMO_PRINT': '1'})
        if r.returncode:
            print(bug['id'], 'VALUES FAILED', r.stdout[-3000:])
            return False
        open(main_rs, 'w').write(text.replace('%EXPECTED%', r.stdout.strip()))
    json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    r = sh(['bash', path], repo)
    clean = r.returncode
    if clean:
        print(bug['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-3000:])
        return False
    for name, old, new in bug['edits']:
        p = os.path.join(repo, name)
        s = open(p).read()
        if s.count(old) != 1:
            print(bug['id'], 'EDIT occurs', s.count(old), 'times:', old)
            sh('git checkout -q -- .', repo)
            return False
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', repo).stdout
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    sh('rm -rf target', repo)
    failed, text = tests(repo, target)
    r = sh(['bash', path], repo)
    sh('git checkout -q -- .', repo)
    good = not failed and r.returncode not in (0, 2)
    print(bug['id'], bug['property'], 'OK' if good else 'BAD', 'tests failing:', failed, 'demo with patch:', r.returncode,
          r.stdout.strip().splitlines()[:3] if r.returncode else '', flush=True)
    if 'COMPILE' in failed:
        print(text[-3000:])
    return good


main()
