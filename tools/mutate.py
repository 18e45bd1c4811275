#!/usr/bin/env python3
"""Development aid (no registered check uses it): applies source edits to scratch copies of /repo and runs checks on them.

  mutate.py FILE.py [name-regex]     FILE.py defines M = [(name, props, kind, [(path, old, new), ..]), ..]
  kind: 'bug' (one of the props must report) or 'ok' (all of the props must stay quiet)
"""
import os, re, subprocess, sys, shutil, concurrent.futures as cf, importlib.util, threading, json
W = '/tmp/w'
N = int(os.environ.get('MUT_N', '4'))
HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.join(os.path.dirname(HERE), 'sa')
local = threading.local()
ids = iter(range(N))
lock = threading.Lock()


def worker_dir():
    if not hasattr(local, 'd'):
        with lock:
            i = next(ids)
        d = '%s/m%d' % (W, i)
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(d + '/cache/target'):
            os.makedirs(d + '/cache', exist_ok=True)
            subprocess.run(['cp', '-a', '/verif/.cache/target', d + '/cache/target'], check=True)
        shutil.rmtree(d + '/repo', ignore_errors=True)
        os.makedirs(d + '/repo')
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s/repo' % d, shell=True, check=True)
        local.d = d
    return local.d


def run(m):
    name, props, kind, edits = m
    d = worker_dir()
    saved = {}
    try:
        for path, old, new in edits:
            p = os.path.join(d, 'repo', path)
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                return name, 'BAD-EDIT', 'not found in %s: %s' % (path, old[:60])
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, SA_REPO=d + '/repo', SA_CACHE=d + '/cache', SA_EVIDENCE=d + '/ev')
        r = subprocess.run([sys.executable, os.path.join(SA, 'check.py')] + list(props), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout
        if r.returncode == 2 or 'Traceback' in out:
            return name, 'ERROR', out[-300:]
        hit = re.findall(r'VIOLATION property=(\S+)', out)
        if kind == 'bug':
            return name, ('caught' if hit else 'MISSED'), ','.join(hit) + ' ' + (out.split('\n')[0][:170] if hit else '')
        return name, ('quiet' if not hit else 'FALSE-ALARM'), out[:400] if hit else ''
    finally:
        for p, s in saved.items():
            open(p, 'w').write(s)


def main():
    spec = importlib.util.spec_from_file_location('mm', sys.argv[1])
    mm = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mm)
    ms = [m for m in mm.M if len(sys.argv) < 3 or re.search(sys.argv[2], m[0])]
    bad = 0
    with cf.ThreadPoolExecutor(N) as ex:
        for name, res, detail in ex.map(run, ms):
            print('%-9s %-40s %s' % (res, name, detail), flush=True)
            bad += res not in ('caught', 'quiet')
    print('%d mutants, %d not as expected' % (len(ms), bad))


main()
