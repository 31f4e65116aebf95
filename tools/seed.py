#!/usr/bin/env python3
"""Makes one planted bug: seed.py <id> <spec.py> [--keep]

spec.py defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], MAIN (Rust source of the demonstration, which
panics when the property is broken) and optionally DEPS (lines of Cargo.toml).  The patch is applied to /repo, built,
tested against the stable tests and the demonstration is run with and without it; the bug is kept only if all of that
comes out right.  /repo is restored afterwards."""
import json, os, subprocess, sys, stat, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = r'''#!/bin/bash
# Builds the small program beside this file against /repo and runs it in a scratch directory.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTC_WRAPPER=
mkdir -p "$W/p/src"
cp "$HERE/main.rs" "$W/p/src/main.rs"
cp "$HERE/demo.toml" "$W/p/Cargo.toml"
cp /repo/apps/Cargo.lock "$W/p/Cargo.lock"
cd "$W/p"
if ! cargo build --offline --quiet 2> "$W/log"; then tail -30 "$W/log"; exit 3; fi
timeout 60 "$W/target/debug/demo"
'''
STUBRUN = r'''#!/bin/bash
# Type-checks and runs the changed crate of /repo with the stub dependencies beside this file (the real ones are not
# available offline), in a scratch directory.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTC_WRAPPER= RUSTC_BOOTSTRAP=1
export RUSTFLAGS="--cap-lints allow"
cp -r "$HERE/stubs" "$W/p"
mkdir -p "$W/p/demo/src"
cp "$HERE/main.rs" "$W/p/demo/src/main.rs"
cp "$HERE/demo.toml" "$W/p/demo/Cargo.toml"
cp /repo/apps/Cargo.lock "$W/p/Cargo.lock"
cd "$W/p"
@LINKS@
sed -e '/^members/,/]/d' /repo/Cargo.toml | sed -e 's#^\[workspace\]#[workspace]\nmembers = [@MEMBERS@, "demo"]#' > Cargo.toml
if ! cargo build --offline --quiet -p demo 2> "$W/log"; then tail -30 "$W/log"; exit 3; fi
timeout 60 "$W/target/debug/demo"
'''
STUBTOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
'''
STUBS = {
    'standins': ('ln -s /repo/merkle mina-merkle/repo; ln -s /repo/consensus mina-consensus/repo', '"mina-merkle", "mina-consensus"'),
    'standins_base': ('; '.join('ln -s /repo/%s %s' % (d, d) for d in ('protocol', 'crypto', 'base', 'proof-systems-shim')),
                      ', '.join('"%s"' % m for m in ('protocol/bin-prot', 'protocol/serialization-types-macros', 'protocol/versioned',
                                                     'mina-serialization-types', 'proof-systems', 'mina-crypto', 'mina-rs-base'))),
    'standins_secrets': ('ln -s /repo/secrets mina-secrets/repo', '"mina-secrets"'),
    'standins_wire': ('ln -s /repo/protocol protocol', '"protocol/bin-prot", "protocol/serialization-types-macros", "protocol/versioned", "mina-serialization-types"'),
}
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bin_prot = { package = "bin-prot", path = "/repo/protocol/bin-prot", features = ["loose_deserialization"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    sid, spec = sys.argv[1], sys.argv[2]
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty'
    ok = True
    try:
        for f, a, b in ns['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        open(d + '/demo.sh', 'w').write(RUN if 'DEMO' not in ns else ns['DEMO'])
        if 'STUBS' in ns:
            links, members = STUBS[ns['STUBS']]
            open(d + '/demo.sh', 'w').write(STUBRUN.replace('@LINKS@', links).replace('@MEMBERS@', members))
            shutil.rmtree(d + '/stubs', ignore_errors=True)
            shutil.copytree(os.path.join(ROOT, ns['STUBS']), d + '/stubs', ignore=shutil.ignore_patterns('witness_*', 'README.md'))
        os.chmod(d + '/demo.sh', 0o755)
        if 'MAIN' in ns:
            open(d + '/main.rs', 'w').write(ns['MAIN'].lstrip('\n'))
            open(d + '/demo.toml', 'w').write((STUBTOML if 'STUBS' in ns else TOML) + ns.get('DEPS', ''))
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        out = json.load(open('/tmp/seed_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base.get('stable') or base.get('passed') or base.get('tests')
        passed = set(out.get('passed', []))
        miss = [n for n in names if n not in passed]
        if miss:
            print(sid, 'TESTS FAIL', miss[:5]); ok = False
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(sid, 'demo with patch:', r.returncode, r.stdout[-300:].replace('\n', ' | '))
        if r.returncode in (0, 3): ok = False
        r = sh('bash %s/check.sh %s' % (ROOT, ns['PROP']))
        print(sid, 'check', ns['PROP'], 'exit', r.returncode, [l[:160] for l in r.stdout.splitlines() if 'VIOLATION' in l][:2])
    finally:
        sh('git -C /repo checkout -- .')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    print(sid, 'demo clean:', r.returncode, r.stdout[-300:])
    if r.returncode != 0: ok = False
    print(sid, 'KEPT' if ok else 'REJECTED')
    if not ok and '--keep' not in sys.argv:
        sh('rm -rf ' + d)


main()
