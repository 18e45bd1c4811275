#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from tools/seeds/specs*.py and confirms each planted bug in a scratch copy.
  seed.py [id-regex]"""
import os, re, subprocess, sys, shutil, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/seedw'
ENV = dict(os.environ)
DEMO = '''#!/bin/bash
# run with cwd = repository: exit 0 iff the property holds on the demonstrated history
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp "$D/common.rs" "$T/src/common.rs" && cp "$R/Cargo.lock" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.release]
opt-level = 1
debug = 0
[profile.dev]
debug = 0
[dependencies]
rust_road_router = { path = "$R/engine"@FEATURES@ }
EOF
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
mkdir -p "$T/data"
cargo build --offline -q @REL@ 2> "$T/log" || { tail -20 "$T/log"; exit 4; }
timeout 120 "$T/target/@DIR@/demo" "$T/data"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tree():
    if not os.path.exists(W + '/repo/target'):
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        sh('cp -a /repo %s/repo' % W)
    sh('git -C %s/repo fetch -q /repo HEAD && git -C %s/repo checkout -q -f FETCH_HEAD && git -C %s/repo clean -qfd' % (W, W, W))
    return W + '/repo'


def tests(r):
    out = W + '/t.json'
    env = ''.join(l for l in open('/opt/vp/env.sh') if not l.startswith('cd '))
    x = sh(env + '\ncd %s && cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > %s/log 2>&1; python3 /opt/vp/results.py %s "cargo:%s/log"' % (r, W, out, W), executable='/bin/bash')
    b = json.load(open('/opt/vp/BASELINE.json'))
    st = b.get('stable') or b.get('passed') or b.get('tests') or b
    res = set(json.load(open(out))['passed']) if os.path.exists(out) else set()
    return [t for t in st if t not in res]


def main():
    specs = []
    for f in sorted(glob.glob(V + '/tools/seeds/specs*.py')):
        ns = {}
        exec(open(f).read(), ns)
        specs += ns['S']
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    r = tree()
    for s in specs:
        if not re.search(pat, s['id']):
            continue
        d = V + '/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.rs', 'w').write('mod common;\nuse common::*;\n' + s['demo'].lstrip('\n'))
        shutil.copy(V + '/tools/seeds/common.rs', d + '/common.rs')
        rel = s.get('release', False)
        ft = s.get('features')
        ft = (', features = [%s]' % ', '.join('"%s"' % x for x in ft)) if ft else ''
        if s.get('nodefault'):
            ft = ', default-features = false' + ft
        open(d + '/demo.sh', 'w').write(s.get('script') or DEMO.replace('@REL@', '--release' if rel else '').replace('@DIR@', 'release' if rel else 'debug').replace('@FEATURES@', ft))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        clean = sh('bash %s/demo.sh' % d, cwd=r) if False else None
        # clean run
        run = 'export SEEDREPO=%s; cd %s && bash -c \'cd() { if [ "$1" = /repo ]; then builtin cd %s; else builtin cd "$@"; fi; }; . %s/demo.sh\' %s/demo.sh' % (r, r, r, d, d)
        c = sh(run)
        for path, old, new in s['edits']:
            p = os.path.join(r, path)
            t = open(p).read()
            assert t.count(old) >= 1, (s['id'], old)
            open(p, 'w').write(t.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % r).stdout)
        p = sh(run)
        miss = tests(r)
        sh('git -C %s checkout -q -f' % r)
        ok = c.returncode == 0 and p.returncode not in (0, 3, 4) and not miss
        print('%-4s %-34s clean=%d patched=%d missing tests=%d' % ('ok' if ok else 'BAD', s['id'], c.returncode, p.returncode, len(miss)), flush=True)
        if not ok:
            print((c.stdout[-600:] if c.returncode else ''), p.stdout[-500:] if p.returncode in (0, 3, 4) else '', miss[:4])


main()
