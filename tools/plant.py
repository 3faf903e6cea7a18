#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/planted/*.py and tries each planted bug in
scratch copies (/tmp/pl/repo, /tmp/pl/verif): the patch applies to base lines only, builds, passes the
existing tests, its demonstration tells the two trees apart, and whether the property's check sees it.
usage: plant.py write|try [--nocheck] <id>...     (no id: all)"""
import sys, os, subprocess, json, pathlib, glob, importlib.util, shutil, time
V = pathlib.Path('/verif'); PL = pathlib.Path(os.environ.get('PL', '/tmp/pl'))
BUGS = {}
def bug(id, **k): 
    assert id not in BUGS, id
    BUGS[id] = k
for f in sorted(glob.glob(str(V/'tools/planted/*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
DEMO = r'''#!/bin/bash
# Exit 0 where %(short)s holds; nonzero otherwise. Everything is built and run in a scratch folder.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= HOME="${HOME:-/root}" CARGO_INCREMENTAL=0
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
%(flags)s
dir=/tmp/demo_%(id)s
rm -rf /tmp/demo_%(id)s
mkdir -p $dir/src && cp "$here/main.rs" $dir/src/main.rs && cp "$repo/Cargo.lock" $dir/Cargo.lock || exit 3
cat > $dir/Cargo.toml <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
%(deps)s
%(patch)s
[profile.dev]
debug = 0
END
cd $dir && CARGO_TARGET_DIR=$dir/target cargo build --offline -q 2>$dir/log || { tail -20 $dir/log; rm -rf /tmp/demo_%(id)s; exit 4; }
timeout 240 $dir/target/debug/demo; rc=$?
rm -rf /tmp/demo_%(id)s
exit $rc
'''
WEBDEMO = r'''#!/bin/bash
# Exit 0 where %(short)s holds; nonzero otherwise. Runs the web UI's sources in node, with stand-ins for its packages.
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 200 node --no-warnings "$here/demo.mjs"
'''
DEPS = {'de': 'dynamic_expressions = { path = "$repo/dynamic_expressions" }\nndarray = "*"\n',
        'sr': 'symbolic_regression = { path = "$repo/symbolic_regression" }\ndynamic_expressions = { path = "$repo/dynamic_expressions" }\nndarray = "*"\nfastrand = "*"\n',
        'wasm': 'symbolic_regression_wasm = { path = "$repo/web/wasm" }\nsymbolic_regression = { path = "$repo/symbolic_regression", default-features = false }\nserde_json = "*"\nserde = "*"\nserde-wasm-bindgen = "*"\nndarray = "*"\n'}
SHIMS = ['wasm-bindgen', 'wasm-bindgen-macro', 'serde-wasm-bindgen']
DEPS['front'] = DEPS['wasm'].replace('/web/wasm" }', '/web/wasm", default-features = false }') + 'wasm-bindgen = "*"\ndynamic_expressions = { path = "$repo/dynamic_expressions", default-features = false }\n'
PATCH = '[patch.crates-io]\nwasm-bindgen = { path = "$here/js/wasm-bindgen" }\nserde-wasm-bindgen = { path = "$here/js/serde-wasm-bindgen" }'
def sh(c, cwd=None, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def write(id):
    b = BUGS[id]; d = V/'seeded'/id; d.mkdir(parents=True, exist_ok=True)
    reset()
    base = subprocess.run('git -C /repo log --format=%h --grep="^base" -1', shell=True, capture_output=True, text=True).stdout.strip()
    for f, old, new in b['edits']:
        p = PL/'repo'/f; s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = sh('git diff -U3', cwd=PL/'repo')[1]
    (d/'patch.diff').write_text(diff)
    cfg = b.get('cfg'); flags = 'export RUSTFLAGS="--cfg sr_verif -Awarnings"' if cfg else 'export RUSTFLAGS=-Awarnings'
    if b['crate'] == 'web':
        (d/'demo.sh').write_text(WEBDEMO % dict(short=b['holds']))
        shutil.rmtree(d/'ui', ignore_errors=True); (d/'ui').mkdir()
        shutil.copytree(V/'mc_web'/'shims', d/'ui'/'shims'); shutil.copy(V/'mc_web'/'world.mjs', d/'ui'/'world.mjs')
        (d/'ui'/'build.mjs').write_text((V/'mc_web'/'build.mjs').read_text().replace('"/repo/web/ui/src"', 'process.cwd() + "/web/ui/src"'))
        (d/'demo.mjs').write_text(b['main'].lstrip('\n'))
    else:
      (d/'demo.sh').write_text(DEMO % dict(short=b['holds'], id=id.replace('-', '_'), flags=flags, deps=DEPS[b['crate']].strip(), patch=PATCH if b['crate'] == 'front' else ''))
      if b['crate'] == 'front': # JavaScript values as plain data
        for n in SHIMS:
            shutil.rmtree(d/'js'/n, ignore_errors=True); shutil.copytree(V/'shims'/n, d/'js'/n, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    (d/'demo.sh').chmod(0o755)
    if b['crate'] != 'web': (d/'main.rs').write_text(b['main'].lstrip('\n'))
    (d/'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
    # removed lines must come from the original repository
    mine = subprocess.run('git -C /repo log --format=%H e2807ec..HEAD', shell=True, capture_output=True, text=True).stdout.split()
    cur = None
    for l in sh('git diff -U0', cwd=PL/'repo')[1].splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
            if n:
                for bl in sh(f'git blame -s --no-abbrev -L {st},+{n} HEAD -- {cur}', cwd=PL/'repo')[1].splitlines():
                    if bl.split()[0].lstrip('^') in mine: print('   NOT BASE:', cur, bl[:160])
    reset()
def reset(): sh('git checkout -q -- .', cwd=PL/'repo')
TEST_ENV = dict(PROPTEST_RNG_SEED='20251219', PROPTEST_DISABLE_FAILURE_PERSISTENCE='1', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN='nightly-2025-12-19', CARGO_NET_OFFLINE='true')
def tests():
    rc, o = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', cwd=PL/'repo', env=TEST_ENV)
    fails = [l for l in o.splitlines() if l.endswith('... FAILED') or l.startswith('error')]
    return rc, fails
def attempt(id, check=True):
    b = BUGS[id]; d = V/'seeded'/id; reset(); res = []
    rc0, o0 = sh(f'bash {d}/demo.sh', cwd=PL/'repo', timeout=400)
    rc, o = sh(f'git apply {d}/patch.diff', cwd=PL/'repo'); assert rc == 0, o
    rct, fails = tests()
    t = time.time(); rc1, o1 = sh(f'bash {d}/demo.sh', cwd=PL/'repo', timeout=400); t = time.time() - t
    ok = rc0 == 0 and rc1 not in (0, 3, 4) and rct == 0
    print(f'{id} [{b["property"]}] demo clean={rc0} patched={rc1} ({t:.0f}s) tests={rct} {"USABLE" if ok else "UNUSABLE"}', flush=True)
    if rc0: print('   clean:', o0[-600:])
    if rc1 in (0, 4): print('   patched:', o1[-600:])
    if rct: print('   ', fails[:6])
    if check and (ok or '--force' in sys.argv):
        for p in [b['property']] + b.get('also', []):
            t = time.time(); rc, o = sh(f'bash ./check.sh {p}', cwd=PL/'verif', env=dict(VERIF_TIER='quick', VERIF_SEED='1'))
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            print(f'   check {p}: rc={rc} {"CAUGHT" if rc == 1 and v else "MISSED"} ({time.time()-t:.0f}s) {v[0][:150] if v else o[-200:]}', flush=True)
    reset()
    return ok
if __name__ == '__main__':
    if sys.argv[1] == 'try':
        sh(f"mkdir -p {PL}; test -d {PL}/repo || git clone -q /repo {PL}/repo")
        sh(f"git -C {PL}/repo fetch -q /repo HEAD && git -C {PL}/repo reset -q --hard FETCH_HEAD")
        sh(f"mkdir -p {PL}/verif && rsync -a --exclude target --exclude seeded --exclude .git --exclude evidence /verif/ {PL}/verif/ && mkdir -p {PL}/verif/evidence && sed -i 's#/repo/#{PL}/repo/#g' {PL}/verif/mc_*/Cargo.toml {PL}/verif/mc_web/*.mjs")
    mode = sys.argv[1]; ids = [a for a in sys.argv[2:] if not a.startswith('--')] or list(BUGS)
    for i in ids:
        i2 = [k for k in BUGS if k == i] or [k for k in BUGS if k.startswith(i)]
        for k in i2:
            write(k)
            if mode == 'try': attempt(k, '--nocheck' not in sys.argv)
