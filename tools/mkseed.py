#!/usr/bin/env python3
"""Makes a planted bug under /verif/seeded out of a small description (development tool; no check uses it).

  mkseed.py FILE...    each FILE is a Python file defining: id, property, needs, breaks, edits=[(path, old, new)], demo (Rust text),
                       crate ('value' or 'root')
The change is tried out in a scratch copy of /repo, with the repository's own tests and with the demonstration."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/s/repo'
DEMO = '''#!/bin/bash
# Exit 0 when the property holds; run in the repository after its build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/rust-toolchain" "$tmp/"
cp "$repo/%(lock)sCargo.lock" "$tmp/" 2>/dev/null || true
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%(dep)s
[workspace]
END
cd "$tmp"
unset RUSTUP_TOOLCHAIN RUSTFLAGS
CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true cargo run --offline --quiet
'''
DEP = {'value': 'oasis-cbor-value = { path = "$repo/value" }',
       'root': 'oasis-cbor = { path = "$repo", features = ["serde"] }\noasis-cbor-value = { path = "$repo/value" }\nserde = { version = "1", features = ["derive"] }'}


def sh(cmd, cwd=SCRATCH):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)



for f in sys.argv[1:]:
    g = {'crate': 'value', 'demo': ''}
    exec(open(f).read(), g)
    sh('rm -rf /tmp/s/repo/src /tmp/s/repo/value/src /tmp/s/repo/derive/src')
    sh('git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    d = f'/tmp/s/seed/{g["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f'{d}/demo.rs', 'w').write(g['demo'])
    open(f'{d}/demo.sh', 'w').write(DEMO % {'lock': '', 'dep': DEP[g['crate']]})
    os.chmod(f'{d}/demo.sh', 0o755)
    r = sh(f'{d}/demo.sh')
    if r.returncode:
        print(g['id'], 'DEMO FAILS ON THE UNCHANGED TREE\n', r.stdout[-1500:])
        continue
    for path, old, new in g['edits']:
        t = open(f'{SCRATCH}/{path}').read()
        assert t.count(old) >= 1, (g['id'], old)
        open(f'{SCRATCH}/{path}', 'w').write(t.replace(old, new, 1))
    patch = subprocess.run('git diff', cwd=SCRATCH, shell=True, stdout=subprocess.PIPE, text=True).stdout
    bad = ''
    for cmd in ['cargo test --no-fail-fast --offline --all-features'] + [f'cargo test --no-fail-fast --offline --manifest-path {x}/Cargo.toml' for x in ('value', 'derive', 'difffuzz')]:
        r = sh(cmd)
        if 'test result: FAILED' in r.stdout or 'error: could not compile' in r.stdout:
            bad = r.stdout[-2500:]
            break
    if bad:
        print(g['id'], 'THE TESTS SEE IT\n', bad)
        continue
    r = sh(f'{d}/demo.sh')
    if r.returncode == 0 or 'could not compile' in r.stdout:
        print(g['id'], 'THE DEMO DOES NOT SEE IT\n', r.stdout[-1500:])
        continue
    open(f'{d}/patch.diff', 'w').write(patch)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    dst = f'{ROOT}/seeded/{g["id"]}'
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print(g['id'], 'kept:', r.stdout.strip().split('\n')[-3:][:2])
