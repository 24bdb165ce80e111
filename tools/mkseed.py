#!/usr/bin/env python3
"""dev tool: mkseed.py ID PROP NEEDS BREAKS  < demo.rs
Takes the diff of the scratch copy /tmp/wt (cp -a /repo /tmp/wt), confirms that it builds, keeps the
tests passing, and that the demonstration passes on /repo and fails on /tmp/wt; stores seeded/ID."""
import sys, os, subprocess, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
demo = sys.stdin.read()
W = '/tmp/wt'
diff = subprocess.run(['git', '-C', W, 'diff', 'HEAD', '--', 'src'], capture_output=True, text=True).stdout
assert diff.strip(), 'no diff'
d = os.path.join(HERE, 'seeded', sid); os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.rs', 'w').write(demo)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; builds demo.rs against it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$D/demo.rs" "$S/src/main.rs"
cat > "$S/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
spreadsheet-ods = { path = "$PWD" }
chrono = { version = "0.4", default-features = false, features = ["clock", "alloc"] }
icu_locale_core = "2.0"
[workspace]
E
[ -f Cargo.lock ] && cp Cargo.lock "$S/Cargo.lock"
export CARGO_TARGET_DIR="$S/target" CARGO_NET_OFFLINE=true
cd "$S" && cargo build --offline --quiet || exit 3
"$S/target/debug/demo"
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
ok = True
rc, out = sh(d + '/demo.sh', '/repo'); print('demo on /repo:', rc, out[-300:] if rc else ''); ok &= rc == 0
rc, out = sh(d + '/demo.sh', W); print('demo with patch:', rc, out[-300:]); ok &= rc not in (0, 3)
rc, out = sh('. /opt/vp/env.sh; rm -rf test_out; mkdir test_out; cargo test --workspace --no-fail-fast --offline 2>&1', W)
import re
npass = sum(int(x) for x in re.findall(r'(\d+) passed', out)); nfail = sum(int(x) for x in re.findall(r'(\d+) failed', out))
print('tests with patch:', npass, 'passed', nfail, 'failed', rc); ok &= (nfail == 0 and npass >= 116)
if nfail: print([l for l in out.split('\n') if 'FAILED' in l or 'panicked' in l][:10])
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
if not ok:
    shutil.rmtree(d); print('REJECTED'); sys.exit(1)
print('kept', sid)
