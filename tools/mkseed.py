#!/usr/bin/env python3
"""mkseed.py SPEC.py...: write seeded/<id>/ from a spec defining ID, PROPERTY, EDITS [(file, old, new)], MAIN, NEEDS, BREAKS"""
import sys, os, subprocess, json, shutil
W = '/tmp/seedgen'; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
aegir = { path = "$repo/aegir" }
paste = "1"
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" && cargo run --quiet --offline 2>&1
'''
def sh(*a): return subprocess.run(a, check=True, stdout=subprocess.PIPE, text=True).stdout
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g)
    for e in g['SEEDS'] if 'SEEDS' in g else [g]:
        d = os.path.join(V, 'seeded', e['ID']); os.makedirs(d, exist_ok=True)
        shutil.rmtree(W, ignore_errors=True); sh('git', 'clone', '-q', '/repo', W)
        for f, a, b in e['EDITS']:
            p = os.path.join(W, f); s = open(p).read()
            assert s.count(a) == 1, (e['ID'], f, s.count(a)); open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', W, 'diff'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'main.rs'), 'w').write(e['MAIN'].lstrip())
        json.dump({'property': e['PROPERTY'], 'needs': e['NEEDS'], 'what_it_breaks': e['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(e['ID'])
    shutil.rmtree(W, ignore_errors=True)
