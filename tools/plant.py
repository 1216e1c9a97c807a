#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py, and verifies each planted bug:
builds in a scratch copy, passes the stable tests, demo 0 without and non-zero with the patch.
usage: plant.py [--check] ID...   (--check also runs the property's quick check with the patch applied to /repo)"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = '/repo'
DEMO = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory; a failed assertion is a non-zero exit.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
S=$(mktemp -d /tmp/la-demo.XXXXXX) || exit 3
trap 'find "$S" -delete' EXIT
export CARGO_TARGET_DIR=$S/target
mkdir "$S/src" && cp "$D/demo.rs" "$S/src/main.rs" || exit 3
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nla = { path = "%s" }\\n' "$R" >"$S/Cargo.toml"
[ -f Cargo.lock ] && cp Cargo.lock "$S/Cargo.lock"
cd "$S" || exit 3
cargo build --offline --quiet 2>build.log || { cat build.log; exit 3; }
exec timeout -k 5 60 ./target/debug/demo
'''
DEMO = DEMO.replace('exec timeout', 'timeout').rstrip('\n') + '\n'

def load():
    s = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        for d in runpy.run_path(f)['SEEDS']:
            assert d['id'] not in s, d['id']
            s[d['id']] = d
    return s

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def copy():
    w = '/tmp/plant/repo'
    if not os.path.exists(w):
        os.makedirs('/tmp/plant', exist_ok=True)
        sh('cp -a /repo /tmp/plant/repo')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=w)
    return w

def main():
    check = '--check' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    seeds = load()
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('pass', []) if os.path.exists('/opt/vp/BASELINE.json') else [])
    for i in ids or list(seeds):
        d = seeds[i]
        w = copy()
        for f, old, new in d['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(i, 'EDIT matches', n, 'times:', old[:60].replace('\n', '|'))
                break
            open(p, 'w').write(t.replace(old, new))
        else:
            patch = sh('git diff', cwd=w).stdout
            out = os.path.join(V, 'seeded', i)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(patch)
            open(out + '/demo.rs', 'w').write(d['demo'].lstrip('\n'))
            demo = DEMO if not d.get('release') else DEMO.replace('cargo build --offline', 'cargo build --release --offline').replace('target/debug/', 'target/release/')
            open(out + '/demo.sh', 'w').write(demo.replace('la = { path = "%s" }\\n', 'la = { path = "%s" }\\n' + d.get('extern', '').replace('\n', '\\n')))
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            r = sh('. /opt/vp/env.sh; timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=w, executable='/bin/bash')
            ok = 'test result: ok. 92 passed' in r.stdout
            if not ok:
                print(i, 'TESTS FAIL', [l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l][:6])
                continue
            tmp = tempfile.mkdtemp(prefix='plantdemo')
            for x in ('demo.sh', 'demo.rs'):
                shutil.copy(out + '/' + x, tmp)
            b = sh('bash %s/demo.sh' % tmp, cwd=w)
            sh('git checkout -q -- .', cwd=w)
            c = sh('bash %s/demo.sh' % tmp, cwd=w)
            shutil.rmtree(tmp)
            msg = 'tests ok, demo clean=%d patched=%d' % (c.returncode, b.returncode)
            if c.returncode != 0:
                msg += ' CLEAN DEMO FAILS: ' + c.stdout[-400:]
            if b.returncode in (0, 3):
                msg += ' PATCHED DEMO: ' + b.stdout[-600:]
            if check:
                assert sh('git -C /repo status --porcelain').stdout == ''
                a = sh('git -C /repo apply %s/patch.diff' % out)
                try:
                    res = []
                    for cid in [d['property']] + d.get('also', []):
                        k = sh('timeout 900 bash %s/run.sh %s --tier quick' % (V, cid.lower()))
                        v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
                        res.append('%s: %s' % (cid, 'caught' if k.returncode == 1 and v else 'MISSED rc=%d' % k.returncode))
                    msg += ' | ' + ', '.join(res)
                finally:
                    sh('git -C /repo checkout -- .')
            print(i, msg, flush=True)
main()
