"""Rebuilds the MIR of /repo's current working tree (content-hash keyed cache in /verif/.cache)."""
import hashlib, os, subprocess, shutil, sys, time, fcntl, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.environ.get('SA_CACHE', os.path.join(VERIF, '.cache'))

SETS = {
    'engine': (['-p', 'rust_road_router', '--lib'], [('rust_road_router', 'lib')]),
    'server': (['-p', 'server', '-p', 'rust_road_router', '--lib', '--bins'], [('rust_road_router', 'lib'), ('server', 'bin')]),
}
SRCROOT = {('rust_road_router', 'lib'): 'engine/src', ('server', 'bin'): 'server/src'}


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('target', '.git', 'node_modules')]
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock')):
                files.append(os.path.join(root, f))
    for p in sorted(files):
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    with open(os.path.join(HERE, 'rustc_wrap.sh'), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def extract(which='engine'):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _extract(which)


def extract_all():
    """MIR of every library and binary of the workspace: [(package, target, kind, file)]"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = os.path.join(CACHE, 'mirall', h)
        rebuilt = not os.path.exists(os.path.join(out, 'complete'))
        if rebuilt:
            for d in sorted(glob.glob(os.path.join(CACHE, 'mirall', '*')), key=os.path.getmtime)[:-2]:
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            target = os.path.join(CACHE, 'target')
            run_cargo(target, ['--workspace', '--lib', '--bins'], out, '*', [os.path.basename(os.path.dirname(p)) for p in glob.glob(os.path.join(REPO, '*/Cargo.toml'))] + ['rust_road_router'])
            for p in glob.glob(out + '/*.d'):
                os.remove(p)
            open(os.path.join(out, 'complete'), 'w').close()
        else:
            os.utime(out)
        res = []
        for p in sorted(glob.glob(out + '/*.mir')):
            pkg, name, kind, _ = os.path.basename(p).split('.')
            res.append((pkg, name, kind, p))
        return res, {'tree': h, 'crates': ['%s::%s (%s)' % x[:3] for x in res], 'rebuilt': rebuilt}


def run_cargo(target, args, out, crates, pkgs):
    for c in pkgs:
        for d in glob.glob(os.path.join(target, 'debug/.fingerprint', c + '-*')):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ)
    env.update(SA_OUT=out, SA_CRATES=crates, CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=os.path.join(HERE, 'rustc_wrap.sh'))
    cmd = '. /opt/vp/env.sh && cd %s && export CARGO_INCREMENTAL=0 && exec cargo check %s --offline --locked' % (REPO, ' '.join(args))
    r = subprocess.run(['bash', '-c', cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-4000:])


def _extract(which):
    h = tree_hash()
    args, crates = SETS[which]
    out = os.path.join(CACHE, 'mir', h)
    need = [(c, t) for c, t in crates if not os.path.exists(os.path.join(out, '%s.%s.mir' % (c, t)))]
    info = {'tree': h, 'crates': ['%s (%s)' % c for c in crates], 'rebuilt': bool(need)}
    if need:
        # keep only the newest few extractions
        old = sorted(glob.glob(os.path.join(CACHE, 'mir', '*')), key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = os.path.join(CACHE, 'mir-tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(CACHE, 'target')
        run_cargo(target, args, tmp, ','.join('%s.%s' % c for c in crates), ('rust_road_router', 'server', 'conversion'))
        os.makedirs(out, exist_ok=True)
        for c, t in crates:
            p = os.path.join(tmp, '%s.%s.mir' % (c, t))
            if not os.path.exists(p):
                raise BuildError('no MIR produced for %s.%s' % (c, t))
            os.replace(p, os.path.join(out, '%s.%s.mir' % (c, t)))
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.utime(out)
    return [(c, SRCROOT[(c, t)], os.path.join(out, '%s.%s.mir' % (c, t))) for c, t in crates], info


if __name__ == '__main__':
    t = time.time()
    try:
        print(extract(sys.argv[1] if len(sys.argv) > 1 else 'engine'), '%.1fs' % (time.time() - t))
    except BuildError as e:
        print(e)
        sys.exit(2)
