#!/usr/bin/env python3
"""dev tool: writes /verif/seeded/<id>/ from tool/seeds.py (patch.diff, demo, meta.json)"""
import sys, os, subprocess, json, shutil, tempfile, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import S
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = '''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "vharness"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nstringology = { path = "%s" }\\n' "$PWD" > "$T/Cargo.toml"
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cargo build --offline -q --manifest-path "$T/Cargo.toml" || exit 3
timeout 60 "$T/target/debug/vharness"
'''
BIN = '''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cargo build --offline -q --bin %s || exit 3
B="$T/target/debug/%s"
timeout 60 python3 "$D/demo.py" "$B" "$T"
'''
for id, d in S.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        continue
    o = ROOT + '/seeded/' + id
    os.makedirs(o, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in d['edits']:
        a = files.get(f) or subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
        files.setdefault(f + '\0', a)
        assert a.count(old) == 1, (id, f, a.count(old), old)
        files[f] = a.replace(old, new)
    for f in [k for k in files if not k.endswith('\0')]:
        a, b = files[f + '\0'], files[f]
        patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(o + '/patch.diff', 'w').write(patch)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    if 'bin' in d:
        open(o + '/demo.sh', 'w').write(BIN % (d['bin'], d['bin']))
        open(o + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
    else:
        open(o + '/demo.sh', 'w').write(LIB)
        open(o + '/main.rs', 'w').write(d['demo'].lstrip('\n'))
        shutil.copy(ROOT + '/harness/Cargo.lock', o + '/Cargo.lock')
    os.chmod(o + '/demo.sh', 0o755)
    print('wrote', id)
