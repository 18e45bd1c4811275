"""Searches end, stop and prune only once nothing better can follow."""
import re
from core import show, subterms
from framework import fname, Missing
from rules import tail, Canon, stores
from flow import walk, heads_of, natural_loops
from state import prim
from p_labels import side, FW, BW

ID = 'C08'
CRATES = 'engine'

STEPPERS = {'DijkstraRun', 'MultiCritDijkstraRun', 'TopoDijkstraRun', 'SendTopoDijkstraRun', 'BucketCHSelectionRun', 'IndexdMinHeap'}
MODULES = re.compile(r'^algo::(dijkstra::query|ch_potentials::(td_)?query|contraction_hierarchy::query|catchup::Server|traffic_aware|alt::|customizable_contraction_hierarchy::query|time_dependent_sampling)')
BOTH = re.compile(r'^algo::contraction_hierarchy::')
QUERIES = {'query', 'td_query', 'one_to_all', 'ranks', 'distance_with_cap', 'visualize_query'}


# ------------------------------------------------------------------ terms
def is_pop(t):
    return t[0] == 'call' and tail(t) == 'pop' and len(t[2]) == 1 and last(t[2][0]).endswith('queue')


def last(t):
    while t[0] in ('idx', 'elem', 'iter', 'cast'):
        t = t[1] if t[0] != 'cast' else t[-1]
    return t[2] if t[0] == 'fld' and isinstance(t[2], str) else ''


def popped(t):
    """queue a term was popped from, if it depends on a popped element"""
    for x in [t] + list(subterms(t)):
        if is_pop(x):
            return x[2][0]
    return None


def key_of(t):
    """queue whose minimal (or just removed) key the term is"""
    if t[0] == 'fld' and t[2] == 'key':
        b = t[1]
        if b[0] == 'elem' and last(b[1]).endswith('queue'):
            return b[1]
        while b[0] == 'fld':
            b = b[1]
        if is_pop(b) or (b[0] == 'call' and tail(b) == 'peek'):
            return b[2][0]
    return None


def addends(t):
    if t[0] == 'bin' and t[1] == 'Add':
        return addends(t[2]) + addends(t[3])
    if t[0] == 'call' and tail(t) == 'add' and len(t[2]) == 2:
        return addends(t[2][0]) + addends(t[2][1])
    return [t]


def infinite(t):
    return t[0] == 'const' and (t[1] == 'INFINITY' or t[1] == 2147483647 or t[1] == 4294967295 or 'INFINITY' in str(t[1]) or 'MAX' in str(t[1]))


def distlike(t):
    return t[0] == 'idx' and re.search(r'dist', last(t[1])) is not None


class Terms:
    def __init__(self, g):
        self.A = g.A
        self.g = g

    def alts(self, t):
        return self.A.alternatives(t)

    def upper(self, t, depth=4):
        """best known answer or a cap: infinite until something is found"""
        if depth == 0:
            return False
        if infinite(t):
            return True
        if t[0] == 'bin' and t[1] == 'min':
            return self.upper(t[2], depth - 1) and self.upper(t[3], depth - 1)
        if t[0] == 'bin' and t[1] == 'Add':
            xs = addends(t)
            ups = [x for x in xs if self.upper(x, depth - 1)]
            return bool(ups) and not any(key_of(y) for x in xs for y in [x] + list(subterms(x)))
        if t[0] == 'call' and tail(t) == 'min' and len(t[2]) == 2:
            return all(self.upper(x, depth - 1) for x in t[2])
        if distlike(t):
            return popped(t[2]) is None and not any(x[0] == 'elem' for x in subterms(t[2])) and not (t[2][0] == 'phi' and any(popped(x) for x in self.alts(t[2])))
        if t[0] == 'fld' and t[2] == '1' and t[1][0] in ('phi', 'loc'):
            # (lower, upper) interval of the answer: only its upper end counts
            al = [dict((str(k), v) for k, v in x[3]).get(t[2]) for x in self.alts(t[1]) if x[0] == 'agg']
            return bool(al) and any(x is not None and infinite(x) for x in al)
        if t[0] in ('phi', 'loc'):
            al = self.alts(t)
            return any(infinite(x) or self.is_arg(x) for x in al) and not any(key_of(x) for x in al)
        return self.is_arg(t)

    def is_arg(self, t):
        """a parameter, a scalar configuration field or the value of an optional parameter"""
        while t[0] == 'fld' and t[2] not in ('key',):
            t = t[1]
        return t[0] == 'arg' or (t[0] == 'const' and isinstance(t[1], str) and t[1].startswith('arg'))

    def lower(self, t, depth=4, sums=True):
        """set of queues a lower bound on everything still to come is made of, or None"""
        if depth == 0:
            return None
        xs = addends(t)
        res = []
        for x in xs:
            q = key_of(x)
            if q is not None:
                res.append(q)
            elif distlike(x) and popped(x[2]) is not None:
                res.append(popped(x[2]))
            elif x[0] in ('bin',) and x[1] == 'min':
                a, b = self.lower(x[2], depth - 1, sums), self.lower(x[3], depth - 1, sums)
                if a is None or b is None:
                    return None
                res += list(a | b)
            elif x[0] == 'const' and x[1] == 0:
                continue
            elif x[0] in ('phi', 'loc'):
                al = self.alts(x)
                s = set()
                for v in al:
                    if v[0] == 'const' and (v[1] == 0 or infinite(v)):
                        continue
                    r = self.lower(v, depth - 1, sums)
                    if r is None:
                        return None
                    s |= r
                if not s:
                    return None
                if len(s) > 1:
                    return None
                res += list(s)
            else:
                return None
        if len(res) != len(set(res)):
            return None
        if not sums and sum(1 for x in xs if not (x[0] == 'const' and x[1] == 0)) > 1:
            return None
        return set(res) if res else None


def le_pairs(t, pol):
    """(lo, hi) with lo <= hi implied by the condition"""
    if t[0] == 'bin' and t[1] in ('Lt', 'Gt', 'Le', 'Ge'):
        op, a, b = t[1], t[2], t[3]
    elif t[0] == 'call' and tail(t) in ('lt', 'gt', 'le', 'ge') and len(t[2]) == 2:
        op, a, b = tail(t).capitalize(), t[2][0], t[2][1]
    elif t[0] == 'call' and tail(t) == 'fuzzy_lt' and len(t[2]) == 2:
        op, a, b = 'Lt', t[2][0], t[2][1]
    else:
        return None
    if op in ('Gt', 'Ge'):
        a, b = b, a
    return (a, b) if pol else (b, a)


# ------------------------------------------------------------------ justification of leaving a search
def opt_key(T, t):
    """(queue or None, ok) for an optional queue key handed to a stop function"""
    for v in T.alts(t):
        if v[0] == 'agg' and v[2] == 'None':
            yield None
        elif v[0] == 'agg' and v[2] == 'Some':
            x = v[3][0][1]
            for y in T.alts(x):
                q = key_of(y)
                if q is not None:
                    yield q
                elif y[0] == 'call' and tail(y) == 'load':
                    yield 'progress'
                else:
                    yield 'bad'
        else:
            yield 'bad'


class Search:
    def __init__(self, ctx, f, g, both):
        self.ctx, self.f, self.g, self.both = ctx, f, g, both
        self.T = Terms(g)
        self.memo = {}

    def qside(self, q):
        return side(q)

    def justified(self, t, pol, q):
        """does the condition entitle the search on queue q to end: None, or a reason"""
        T = self.T
        qs = self.qside(q)
        if t[0] == 'is':
            c = t[1]
            if c[0] == 'call' and tail(c) in ('pop', 'peek') and c[2] and ((t[2] == 'None') == pol):
                if c[2][0] == q or (not self.both and last(c[2][0]).endswith('queue')):
                    return 'empty'
            return None
        if t[0] == 'bin' and t[1] in ('Eq', 'Ne') and pol == (t[1] == 'Eq'):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                p = popped(a)
                if p is not None and a[0] == 'fld' and a[2] == 'node' and (p == q or not self.both):
                    return 'target' if self.target(b, self.qside(p)) else None
            return None
        if t[0] == 'call' and tail(t) in ('stop', 'stop_forward', 'stop_backward') and pol and len(t[2]) == 4:
            return 'stop' if self.stop_args(t) else None
        lh = le_pairs(t, pol)
        if lh:
            lo, hi = lh
            if T.upper(lo):
                s = T.lower(hi, sums=not self.both)
                if s is not None and (q in s or not self.both):
                    return 'bound'
            if T.is_arg(lo) and hi[0] in ('call', 'len') and (hi[0] == 'len' or tail(hi) == 'len'):
                return 'count'
        return None

    def stop_args(self, t):
        T = self.T
        for i, sd in ((1, 'fw'), (2, 'bw')):
            for k in opt_key(T, t[2][i]):
                if k == 'bad' or (isinstance(k, tuple) and side(k) != sd):
                    return False
        return T.upper(t[2][3])

    def target(self, t, qs):
        want = 'from' if qs == 'bw' else 'to'
        no = 'to' if qs == 'bw' else 'from'
        names = self.endpoints(t)
        if not names:
            return True
        return want in names and no not in names

    def endpoints(self, t):
        """which end of the query a node term was taken from"""
        if t[0] == 'call' and tail(t) in ('from', 'to') and len(t[2]) == 1:
            return {tail(t)}
        if t[0] == 'fld' and t[2] in ('from', 'to'):
            return {t[2]}
        if t[0] == 'arg':
            n = self.argname(t[1])
            return {{'source': 'from', 'target': 'to'}.get(n, n)} if n in ('from', 'to', 'source', 'target') else set()
        res = set()
        for x in t:
            if isinstance(x, tuple):
                for y in ([x] if x and isinstance(x[0], str) else x):
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        res |= self.endpoints(y)
        return res

    def argname(self, i):
        for n, places in self.f.debug.items():
            if '_%d' % i in places:
                return n
        return None

    def cuts(self, q):
        """edges after which the search on queue q may end"""
        g = self.g
        cut = set()
        phis = {}
        for n in g.nodes:
            if n.id not in g.reach:
                continue
            for m, c in n.succ:
                for t, pol in c:
                    if t[0] == 'phi':
                        phis.setdefault((t, pol), []).append((n.id, m.id))
                    elif self.justified(t, pol, q):
                        cut.add((n.id, m.id))
        # boolean variables: true only where it was justified to set them
        for _ in range(4):
            more = set()
            for (p, pol), es in phis.items():
                if set(es) <= cut:
                    continue
                if self.flag(p, pol, q, cut):
                    more |= set(es)
            if more <= cut:
                break
            cut |= more
        return cut

    def flag(self, p, pol, q, cut, seen=frozenset()):
        """the boolean variable p can be `pol` only after a justified edge"""
        g = self.g
        if p in seen:
            return True
        found = False
        by = g.byid()
        for e, d in g.assigns.items():
            if e[0] not in g.reach or p not in d:
                continue
            found = True
            v = d[p]
            v, pl = self.g.A.cond(v, pol)
            if v[0] == 'const' and isinstance(v[1], bool) or v in (('const', 0), ('const', 1), ('const', 'true'), ('const', 'false')):
                val = v[1] in (True, 1, 'true')
                if val != pl:
                    continue
                if e in cut:
                    continue
                pops = [n for n in g.events('call') if n.id in g.reach and n.d['method'] == 'pop' and n.d['args'] and n.d['args'][0] == q]
                tgt = by[e[0]]
                if all(x is not tgt and walk(g, x, {tgt.id}, set(), cut) is None for x in pops + [g.root]):
                    continue
                return False
            if v[0] == 'phi':
                if self.flag(v, pl, q, cut, seen | {p}):
                    continue
                return False
            if not self.justified(v, pl, q):
                return False
        return found


def searches(ctx):
    res = []
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if '{closure' in f.key or f.impl is None or not MODULES.search(fname(f)):
            continue
        ty = f.impl[0].split('<')[0].split('::')[-1].strip()
        if ty in STEPPERS or ctx.private(f):
            continue
        res.append(f)
    return res


def rule_exits(ctx):
    fs = searches(ctx)
    keys = {f.key for f in fs}

    for f in fs:
        def opaque(x, f=f):
            return prim(x) or (x.key != f.key and x.key in keys and x.key.rsplit('::', 1)[-1] in QUERIES)
        g = ctx.graph(f, key='stop', opaque=opaque)
        prune_calls(ctx, f, g)
        pops = [n for n in g.events('call') if n.id in g.reach and n.d['method'] == 'pop' and n.d['args'] and last(n.d['args'][0]).endswith('queue') and n.d['key'].startswith('IndexdMinHeap')]
        if not pops:
            continue
        S = Search(ctx, f, g, bool(BOTH.search(fname(f))))
        by = g.byid()
        rets = {r.id for r in g.events('ret') if r.ctx == 0}
        for q in sorted({n.d['args'][0] for n in pops}, key=repr):
            goals = set(rets)
            for n in g.events('call'):
                if n.id in g.reach and n.d['method'] == 'clear' and n.d['args'] and n.d['args'][0] == q:
                    goals.add(n.id)
            cut = S.cuts(q)
            bad = None
            for n in pops:
                if n.d['args'][0] == q:
                    bad = walk(g, n, goals, set(), cut)
                    if bad:
                        bad = [n] + bad
                        break
            ctx.ob('search-ends-proven', '%s %s' % (fname(f), show(q)[:80]), bad is None,
                   'the search can be given up although elements which may still improve the answer are queued', bad[0] if bad else pops[0], bad)


# ------------------------------------------------------------------ the criteria themselves
FNS = re.compile(r'(^|_)(stop|prune)(_|$)')


def optval(t):
    """parameter whose value (if present) the term is"""
    if t[0] == 'fld' and t[2] == '0' and t[1][0] == 'fld' and t[1][2] == 'Some':
        t = t[1][1]
    elif t[0] == 'fld' and t[2] == '0' and t[1][0] == 'variant':
        t = t[1][1]
    while t[0] == 'fld' and t[2] in ('Some', 'Some.0'):
        t = t[1]
    return t[1] if t[0] == 'arg' else None


def pot_side(t):
    """direction of a lower bound taken from a potential: ('fw'|'bw', raw?)"""
    for x in [t] + list(subterms(t)):
        if x[0] == 'call' and tail(x) in ('forward_potential_raw', 'backward_potential_raw'):
            return tail(x)[:2] == 'fo' and 'fw' or 'bw', True
        if x[0] == 'call' and tail(x) in ('forward_potential', 'backward_potential'):
            return tail(x)[:2] == 'fo' and 'fw' or 'bw', False
        if x[0] == 'call' and tail(x) == 'potential' and x[2] and side(x[2][0]):
            return side(x[2][0]), True
    return None


def about(t, node):
    return any(x == node for x in [t] + list(subterms(t)))


class Criterion:
    """justification inside stop / prune functions, relative to their parameters"""

    def __init__(self, g, name):
        self.g = g
        self.name = name
        self.prune = 'prune' in name
        self.sd = 'bw' if 'backward' in name else 'fw' if 'forward' in name else None

    def justified(self, t, pol):
        A = self.g.A
        if t[0] == 'is' and t[1][0] == 'arg' and not self.prune:
            return t[1][1] in (2, 3) and (t[2] == 'None') == pol
        if t[0] == 'call' and FNS.search(tail(t)) and pol:
            a = t[2]
            idx = [i for i, x in enumerate(a) if x[0] == 'arg']
            same = all(x[0] != 'arg' or x[1] == i + 1 for i, x in enumerate(a))
            d = 'bw' if 'backward' in tail(t) else 'fw' if 'forward' in tail(t) else None
            rest = [x for i, x in enumerate(a) if x[0] != 'arg' and i >= 2]
            return ('prune' in tail(t)) == self.prune and (d == self.sd or self.sd is None or d is None) and same and not rest and len(idx) >= 3
        lh = le_pairs(t, pol)
        if not lh:
            return False
        lo, hi = lh
        u = 5 if self.prune else 4
        if not any(x == ('arg', u) for x in addends(lo)) or any(x[0] == 'bin' and x[1] not in ('Div', 'min', 'max') for x in addends(lo)):
            return False
        xs = addends(hi)
        if not self.prune:
            ps = [optval(x) for x in xs]
            if any(p not in (2, 3) for p in ps) or len(ps) != len(set(ps)):
                return False
            if self.sd and len(ps) == 1 and ps[0] != (2 if self.sd == 'fw' else 3):
                return False
            return True
        if [x for x in xs if x == ('arg', 3)] != [('arg', 3)]:
            return False
        rest = [x for x in xs if x != ('arg', 3)]
        if len(rest) > 1:
            return False
        for x in rest:
            if not self.remaining(x):
                return False
        return True

    def node(self, t):
        return any(y[0] == 'fld' and y[1] == ('arg', 2) or y == ('arg', 2) for y in [t] + list(subterms(t)))

    def remaining(self, x):
        """lower bound on the distance from the pruned node to the end of the search"""
        A = self.g.A
        other = {'fw': 'bw', 'bw': 'fw'}[self.sd]
        for v in (A.alternatives(x) if x[0] in ('phi', 'loc') else [x]):
            if infinite(v):
                continue
            if (v[0] == 'call' and tail(v) == 'saturating_sub' and len(v[2]) == 2) or (v[0] == 'bin' and v[1] in ('SatSub', 'saturating_sub')):
                p, q = (v[2][0], v[2][1]) if v[0] == 'call' else (v[2], v[3])
                if p != ('arg', 4):
                    return False
                for w in (A.alternatives(q) if q[0] in ('phi', 'loc') else [q]):
                    if infinite(w):
                        continue
                    ps = pot_side(w)
                    if ps is None or ps != (other, False) or not self.node(w):
                        return False
                continue
            ps = pot_side(v)
            if ps is None or ps[0] != self.sd or not ps[1] or not self.node(v):
                return False
        return True


def bool_true(v):
    return v[0] == 'const' and v[1] in (True, 1, 'true')


def bool_false(v):
    return v[0] == 'const' and v[1] in (False, 0, 'false')


def rule_criteria(ctx):
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        name = f.key.rsplit('::', 1)[-1]
        if '{closure' in f.key or not FNS.search(name) or not f.module.startswith('algo::a_star') and not (f.impl and 'BiDirPotential' in (f.impl[1] or '')):
            continue
        if name == 'may_stop':
            continue
        g = ctx.graph(f)
        C = Criterion(g, name)
        cut = set()
        phis = {}
        for n in g.nodes:
            if n.id in g.reach:
                for m, c in n.succ:
                    if any(C.justified(t, pol) for t, pol in c):
                        cut.add((n.id, m.id))
        by = g.byid()

        def bad(v, pol, at, seen=()):
            """path on which the value becomes true without a justification"""
            v, pol = g.A.cond(v, pol)
            if bool_true(v) or bool_false(v):
                if bool_true(v) != pol:
                    return None
                return walk(g, g.root, {at.id}, set(), cut) or (at is g.root and [at]) or None
            if v[0] == 'phi':
                if v in seen:
                    return None
                for e, d in g.assigns.items():
                    if e[0] in g.reach and v in d and e not in cut:
                        p = bad(d[v], pol, by[e[0]], seen + (v,))
                        if p:
                            return p
                return None
            if C.justified(v, pol):
                return None
            if v[0] == 'bin' and v[1] in ('BitAnd', 'BitOr'):
                ps = [bad(x, pol, at, seen) for x in v[2:4]]
                conj = (v[1] == 'BitAnd') == pol
                if conj and not all(ps) or not conj and not any(ps):
                    return None
            return walk(g, g.root, {at.id}, set(), cut) or None
        p = None
        last_at = None
        for r in g.events('ret'):
            if r.ctx == 0:
                last_at = r
                p = bad(r.d['value'], True, r)
                if p:
                    break
        imp = f.impl[0].split('<')[0] if f.impl else 'trait'
        ctx.ob('criterion-sound', '%s::%s' % (imp, name), p is None, 'answers true without a lower bound having reached the best known distance', last_at, p)


# ------------------------------------------------------------------ skipped steps of elimination tree walks
SKIPMOD = re.compile(r'^algo::(customizable_contraction_hierarchy::query|catchup::(Server|profiles_naive))')


def rule_skips(ctx):
    for f in searches(ctx):
        if not SKIPMOD.search(fname(f)):
            continue
        if 'skip_next' not in f._text and not any('skip_next' in h._text for h in ctx.P.funcs.values() if h.module == f.module):
            continue
        g = ctx.graph(f, key='skip', opaque=lambda x: prim(x) or x.key.endswith('::skip_next'))
        T = Terms(g)
        by = g.byid()
        for n in g.events('call'):
            if n.id not in g.reach or n.d['method'] != 'skip_next':
                continue
            w = n.d['args'][0]
            conts = {g.A.fld(v, 'distances') for v in [w] + T.alts(w) + deep_defs(g, w)}
            cut = set()
            for x in g.nodes:
                if x.id in g.reach:
                    for m, c in x.succ:
                        for t, pol in c:
                            lh = le_pairs(t, pol)
                            if lh and T.upper(lh[0]) and step_bound(lh[1], conts):
                                cut.add((x.id, m.id))
            heads = heads_of(g, n.id)
            p = None
            for s in [g.root] + [by[h] for h in heads[:1]]:
                p = walk(g, s, {n.id}, set(), cut)
                if p:
                    break
            ctx.ob('skip-proven', '%s %s' % (fname(f), show(w)[:60]), p is None,
                   'a step of the walk is skipped although its node is not farther than the best known distance', n, p)
    ctx.floor('skip-proven', 5)


def deep_defs(g, w):
    """records assigned to a local object"""
    return [v for n, pl, v in stores(g) if pl == w and v[0] == 'agg']


def step_bound(t, conts):
    """distance (or lower bound of it) the walk has for the node it is at"""
    if t[0] == 'fld' and t[2] in ('lower_bound',):
        t = t[1]
    return t[0] == 'idx' and t[1] in conts and any(x[0] == 'fld' and x[2] == 'next' for x in subterms(t[2]))


# ------------------------------------------------------------------ what pruning is asked about
def prune_calls(ctx, f, g):
    T = Terms(g)
    for n in g.events('call'):
        if n.id not in g.reach or n.d['method'] not in ('prune_forward', 'prune_backward') or len(n.d['args']) != 5:
            continue
        sd = 'fw' if n.d['method'] == 'prune_forward' else 'bw'
        other = 'bw' if sd == 'fw' else 'fw'
        pot, head, dist, rev, up = n.d['args']
        while head[0] == 'agg' and len(head[3]) == 1:
            head = head[3][0][1]
        subj = '%s %s' % (fname(f), n.d['method'])
        ds = T.alts(dist) if dist[0] in ('phi', 'loc') else [dist]
        ok = all((d[0] == 'idx' and d[2] == head and side(d[1]) in (sd, None)) or (d[0] == 'call' and tail(d) == 'get' and d[2][1] == head and side(d[2][0]) in (sd, None))
                 or (d[0] not in ('idx',) and not any(x[0] == 'idx' and side(x[1]) == other for x in subterms(d))) for d in ds)
        ctx.ob('prune-asked-about-node', subj, ok, 'the distance %s handed over is not the one of the node %s in this direction' % (show(dist)[:80], show(head)[:60]), n)
        ok = True
        for v in (T.alts(rev) if rev[0] in ('phi', 'loc') else [rev]):
            k = key_of(v)
            ok = ok and (infinite(v) or (k is not None and side(k) == other) or (v[0] == 'call' and tail(v) == 'load'))
        ctx.ob('prune-reverse-progress', subj, ok, 'the progress handed over is not the minimal key of the opposite queue', n)
        ctx.ob('prune-bound', subj, T.upper(up), 'the bound handed over is not the best known distance', n)


RULES = [('exits', rule_exits), ('criteria', rule_criteria), ('skips', rule_skips)]

EXPLANATION = ('Every search (Dijkstra, bidirectional Dijkstra, CH, CH potential, time-dependent and nearest neighbour queries) is expanded into an event graph. From every removal from a search queue all paths to '
               'the return of the query (or to the point where the queue is discarded) are followed; each must pass a branch that proves the search complete: the queue is empty, the query end of this direction '
               'was removed, enough results were collected, a stop criterion answered yes, or a lower bound built from minimal keys reached the best known distance. Comparison operands are classified by the terms '
               'they are computed from. The stop and prune criteria themselves, the arguments they are called with and the skipped steps of elimination tree walks are decided in the same way.')
ASSUMPTIONS = ['potentials and lower bounds are admissible and consistent', 'queues and directions are recognised by field names', 'CH searches need both directions to be exhausted, searches on the input graph one']
