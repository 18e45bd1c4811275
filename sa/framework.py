"""Shared driver: obligations, violations, known findings, evidence."""
import json, os, re, sys, time, traceback
import extract
from program import Program
from core import Analysis, show, loc

VERIF = extract.VERIF


class Missing(Exception):
    """an anchor the rule needs was not found in the source"""


class Ctx:
    def __init__(self, prop, crates='engine', level='other'):
        self.prop = prop
        self.t0 = time.time()
        if crates == 'all':
            self.units, self.info = extract.extract_all()
            self.P = Program(extract.REPO, [])
        else:
            mirs, self.info = extract.extract(crates)
            self.P = Program(extract.REPO, mirs)
        self.obligations = []
        self.violations = []
        self.analysed = set()
        self.nodes = 0
        self.rules = {}
        self.graphs = {}

    # ---- anchors
    def fn(self, pattern, one=True):
        fs = [f for f in self.P.find(pattern) if '{closure' not in f.key]
        if not fs:
            raise Missing('no function matches %s' % pattern)
        if one and len(fs) > 1:
            raise Missing('%d functions match %s: %s' % (len(fs), pattern, ', '.join(f.key for f in fs)[:300]))
        return fs[0] if one else fs

    def method(self, ty, name, module=None, trait=None, one=True):
        """workspace functions `name` in impls whose self type is `ty` (base name), optionally of a module / trait"""
        r = []
        for f in self.P.funcs.values():
            if f.impl is None or '{closure' in f.key or f.key.rsplit('::', 1)[-1] != name:
                continue
            t = f.impl[0].split('<')[0].split('::')[-1].strip().lstrip('&')
            if t != ty:
                continue
            if module and not f.key.startswith(module + '::<impl'):
                continue
            if trait is not None and (f.impl[1] or '').split('<')[0].split('::')[-1] != trait:
                continue
            r.append(f)
        if not r:
            raise Missing('no method %s::%s%s' % (module + '::' if module else '', ty, '::' + name))
        if one and len(r) > 1:
            raise Missing('%d methods %s::%s' % (len(r), ty, name))
        return r[0] if one else r

    def private(self, f):
        """a non-public inherent method: only reachable through its callers, into which it is inlined"""
        if f.impl is None or f.impl[1]:
            return False
        m = re.search(r'<impl at (\S+?):(\d+):', f.key)
        if not m:
            return False
        src = open(os.path.join(extract.REPO, m.group(1))).read().split('\n')
        name = f.key.rsplit('::', 1)[-1]
        for l in src[int(m.group(2)) - 1:]:
            mm = re.match(r'\s*(pub(?:\([^)]*\))?\s+)?(?:(?:unsafe|const|async)\s+)*fn\s+%s\b' % re.escape(name), l)
            if mm:
                return not mm.group(1)
        return False

    def graph(self, f, key='default', **kw):
        k = (f.key, key)
        g = self.graphs.get(k)
        if g is None:
            A = Analysis(self.P, **kw)
            g = A.run(f)
            self.graphs[k] = g
            self.analysed |= A.inlined_fns
            self.nodes += len(g.reach)
        return g

    # ---- results
    def ob(self, rule, subject, ok, detail='', node=None, path=None):
        """one obligation; key is stable under line changes"""
        key = '%s|%s' % (rule, subject)
        where = loc(node.span) if node is not None and node.span else ''
        self.obligations.append((rule, subject, bool(ok), where))
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            r[1] += 1
        else:
            self.violations.append({'key': key, 'rule': rule, 'subject': subject, 'detail': detail, 'where': where,
                                    'path': [repr(n)[:300] for n in (path or []) if n.kind not in ('block', 'join')][:60]})
        return ok

    def floor(self, rule, n):
        """the rule must have matched at least n instances"""
        c = self.rules.get(rule, [0, 0])[0]
        self.ob('count-floor', '%s>=%d' % (rule, n), c >= n, 'rule %s matched %d instances, expected at least %d: an anchor it depends on has disappeared' % (rule, c, n))


def fname(f):
    k = f.key
    imp = f.impl
    if imp is None:
        return k
    mod = k.split('::<impl')[0]
    t = imp[0].split('<')[0].split('::')[-1].strip()
    return '%s::%s::%s' % (mod, t, k.rsplit('::', 1)[-1])


def load_known(prop):
    res = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=\[(.*?)\] (.*)', l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def run_property(mod):
    prop = mod.ID
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        ctx = Ctx(prop, getattr(mod, 'CRATES', 'engine'))
    except extract.BuildError as e:
        print('the repository does not build:\n%s' % e)
        return 2
    rules = mod.RULES
    for name, fn in rules:
        try:
            fn(ctx)
        except Missing as e:
            ctx.ob('anchor', name, False, 'rule %s cannot find what it analyses: %s' % (name, e))
        except RecursionError as e:
            ctx.ob('anchor', name, False, 'rule %s could not be decided: %r' % (name, e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.ob('anchor', name, False, 'rule %s could not be decided on this source (%r at %s:%s)' % (name, e, os.path.basename(tb.filename), tb.lineno))
    known = load_known(prop)
    new = []
    for v in ctx.violations:
        if v['key'] in known:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[v['key']], v['key']))
        else:
            new.append(v)
    total = len(ctx.obligations)
    good = sum(1 for o in ctx.obligations if o[2])
    distinct = len({(o[0], o[1]) for o in ctx.obligations})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLANATION,
            'obligations': total, 'discharged': good, 'distinct_subjects': distinct,
            'functions_analysed': len(ctx.analysed), 'event_nodes': ctx.nodes,
            'mir_functions_in_scope': len(ctx.P.funcs), 'crates': ctx.info['crates'], 'source_tree_hash': ctx.info['tree'],
            'rules': {k: {'instances': a, 'held': b} for k, (a, b) in sorted(ctx.rules.items())},
            'samples': [{'rule': o[0], 'subject': o[1], 'held': o[2], 'where': o[3]} for o in ctx.obligations[::max(1, total // 12)]][:14],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    EV = os.environ.get('SA_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    rep = os.path.join(EV, prop + '.report.txt')
    with open(rep, 'w') as fh:
        for v in ctx.violations:
            tag = 'KNOWN' if v['key'] in known else 'VIOLATION'
            fh.write('%s rule=%s subject=%s\n  at %s\n  %s\n' % (tag, v['rule'], v['subject'], v['where'], v['detail']))
            for s in v['path']:
                fh.write('    | %s\n' % s)
        fh.write('%d obligations, %d discharged\n' % (total, good))
        for o in ctx.obligations:
            fh.write('%s %s | %s | %s\n' % ('ok  ' if o[2] else 'FAIL', o[0], o[1], o[3]))
    if new:
        for v in new[:20]:
            print('%s: %s: %s  [%s] %s' % (v['rule'], v['subject'], v['detail'], v['key'], v['where']))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    print('property=%s held: %d obligations on %d functions, %.1f s' % (prop, total, len(ctx.analysed), time.time() - t0))
    return 0
