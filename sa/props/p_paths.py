"""Reported paths are walks from the source to the target; a distance is reported only for a target that was reached."""
import re
from core import show, subterms
from framework import fname, Missing
from rules import tail, stores, is_const
from flow import natural_loops
from p_direct import cast as _cast

ID = 'C11'
CRATES = 'engine'
EXPLANATION = ('Every function that collects nodes or arcs by following parent pointers is interpreted over an abstract walk: first node, node reached, and whether consecutive nodes follow or oppose the arcs. '
               'A step may only continue at the node reached, reversing swaps the ends, the loop condition names the node reached when the loop ends, joins keep what both sides agree on. At the return the sequence must lead '
               'from the source to the target along the arcs. Arcs of the backward graph must be translated to forward ids, arrival times must belong to the node they are paired with, unpacking loops must follow the pointers to the '
               'end they lead to. Every value of Some(distance) that reaches a query result is traced through its alternatives: each one has been compared with infinity or is the distance of a settled end of the query; '
               'path accessors answer Some exactly under the distance being Some, and the query kept for the path is the one that was run.')
ASSUMPTIONS = ['parent pointers are those of the last search (C01) and consistent with the distances (C07)', 'forward and backward pointers are recognised by field names',
               'the CATCHUp path (which expands time-dependent shortcuts while walking) and the repair of non-shortest subpaths are excluded']

PTRS = re.compile(r'(predecessors|parents?)$')
BACK = re.compile(r'(^|_)(backward|bw)(_|$)|backward')
QUERY = re.compile(r'Query|^[A-Z]\.from')
EXCLUDED = re.compile(r'^algo::(minimal_nonshortest_subpaths|catchup)::')


def cast(t):
    """the value below conversions; `from` of a query is its source"""
    t0 = t
    if t[0] == 'call' and tail(t) == 'from' and QUERY.search(t[1]):
        return t
    t = _cast(t)
    if t != t0:
        # one conversion at a time as far as the source of a query is concerned
        x = t0
        while x != t and x[0] == 'call' and len(x[2]) == 1:
            if tail(x) == 'from' and QUERY.search(x[1]):
                return x
            x = x[2][0]
    return t


def ptr_access(t):
    """(array, node, component) of a parent pointer read"""
    comp = None
    t = cast(t)
    if t[0] == 'fld' and t[2] in ('0', '1'):
        comp, t = t[2], t[1]
    t = cast(t)
    if t[0] == 'idx':
        a = t[1]
        if a[0] == 'fld' and isinstance(a[2], str) and PTRS.search(a[2]):
            return a, cast(t[2]), comp
    return None


def names(t):
    while t[0] == 'fld':
        if isinstance(t[2], str):
            yield t[2]
        t = t[1]


def is_back(arr):
    return any(BACK.search(x) for x in names(arr))


def end_of(f, t):
    """'S', 'T' or 'M': source, target or meeting node, in either numbering"""
    t = cast(t)
    while True:
        if t[0] == 'idx' and any(x in ('ranks', 'node_order') for x in names(t[1])):
            t = cast(t[2])
        elif t[0] == 'call' and tail(t) in ('rank', 'node') and t[2]:
            t = cast(t[2][-1])
        else:
            break
    n = None
    if t[0] == 'fld' and isinstance(t[2], str):
        n = t[2]
    elif t[0] == 'call':
        n = tail(t)
    elif t[0] == 'arg':
        n = next((k for k, v in f.debug.items() if '_%d' % t[1] in v), None)
    if n in ('from', 'source', 'origin', 'from_rank', 'from_node'):
        return 'S'
    if n in ('to', 'target', 'to_rank', 'to_node'):
        return 'T'
    return 'M' if n and n.startswith('meeting') else None


class Walk:
    """abstract interpretation of one collected vector"""

    def __init__(self, ctx, f, g, R, cursors, edges):
        self.ctx, self.f, self.g, self.R, self.cursors, self.edges = ctx, f, g, R, cursors, edges
        self.last = ('idx', R, ('const', 'last'))
        self.obs = {}

    def ob(self, subject, ok, detail, node):
        k = (subject, node.id)
        if k not in self.obs or self.obs[k][0] and not ok:
            self.obs[k] = (ok, detail, node)

    # state: None (not reached) | (front, back, dir, elements) ; front, back terms, dir in '', 'fw', 'bw', '?'
    def join(self, a, b):
        if a is None or a == b:
            return b
        if b is None:
            return a
        if a[0] is None and b[0] is not None and not self.edges or b[0] is None and a[0] is not None and not self.edges:
            return ('?', '?', '?')
        return (a[0] if a[0] == b[0] else '?', a[1] if a[1] == b[1] else '?', a[2] if a[2] == b[2] else (a[2] or b[2]) if '' in (a[2], b[2]) else '?')

    def node_of(self, t):
        """node component of an element"""
        if t[0] == 'agg' and t[1] in ('()', 'tuple') and t[3]:
            return t[3][0][1]
        return t

    def at(self, t, st):
        """the term names the node reached"""
        t = cast(t)
        if t == self.last or t == ('fld', self.last, '0'):
            return not self.edges
        return st[1] is not None and t == st[1]

    def push(self, n, v, st):
        v0 = v
        v = self.node_of(v)
        pa = None
        if self.edges:
            cand = [x for x in [v] + list(subterms(v)) if ptr_access(x) and ptr_access(x)[2] == '1']
            pa = ptr_access(cand[0]) if cand else None
        else:
            pa = ptr_access(v)
            if pa and pa[2] != '0':
                pa = None
        if pa is None:
            if st[0] is None and not self.edges:
                return (v, cast(v), '')
            self.ob('step', False, 'something else than the next node or arc of a walk is added: %s' % show(v, 4), n)
            return ('?', '?', '?')
        arr, x, _ = pa
        d = 'fw' if is_back(arr) else 'bw'
        if self.edges and st[0] is None:
            st = (x, x, '')
        self.ob('step', self.at(x, st), 'the walk has reached %s, but continues at %s' % (show(st[1], 4) if isinstance(st[1], tuple) else st[1], show(x, 4)), n)
        self.ob('direction', st[2] in ('', d), 'steps towards the source and towards the target are mixed without reversing the part in between', n)
        if self.edges:
            tr = [y for y in subterms(v) if y[0] == 'idx' and any(z.startswith('backward_to_forward') for z in names(y[1]))] + ([v] if v[0] == 'idx' else [])
            unit = is_const(v, '()')
            self.ob('arc ids', unit or bool(tr) == is_back(arr), 'arcs of the backward graph have to be reported with the ids of the forward graph, forward arcs unchanged', n)
        elif v0 is not v:
            # arrival time of the node added
            for k, y in v0[3][1:]:
                y = cast(y)
                ok = y[0] == 'idx' and cast(y[2]) == v
                self.ob('arrival', ok, 'the time paired with a node is not its own arrival time: %s' % show(y, 5), n)
        return (st[0], ('fld', ('idx', arr, x), '0') if self.edges else cast(v), d if st[2] in ('', d) else '?')

    def transfer(self, n, st):
        if n.kind == 'call' and n.d.get('args'):
            a, m = n.d['args'], n.d['method']
            if a[0] == self.R:
                if m == 'push':
                    return self.push(n, a[1], st)
                if m == 'reverse':
                    if st[0] is None:
                        return st
                    return (st[1], st[0], {'fw': 'bw', 'bw': 'fw'}.get(st[2], st[2]))
                if m in ('pop', 'clear', 'truncate', 'insert', 'remove', 'extend', 'append', 'drain', 'dedup', 'sort', 'swap', 'retain'):
                    self.ob('step', False, 'the collected walk is changed by %s' % m, n)
                    return ('?', '?', '?')
        if n.kind == 'write' and n.d['place'] == self.R and n.d['value'][0] == 'agg' and n.d['value'][1] == '[]':
            vs = [x for _, x in n.d['value'][3]]
            if len(vs) == 1:
                v = self.node_of(vs[0])
                if vs[0] is not v:
                    for k, y in vs[0][3][1:]:
                        y = cast(y)
                        self.ob('arrival', y[0] == 'idx' and cast(y[2]) == cast(v), 'the time paired with a node is not its own arrival time: %s' % show(y, 5), n)
                return (v, cast(v), '')
            return ('?', '?', '?') if vs else (None, None, '')
        return st

    def edge(self, a, b, conds, st):
        asg = self.g.assigns.get((a.id, b.id)) or {}
        f, k, d = st
        for p, v in sorted(asg.items()):
            v = cast(v)
            if p not in self.cursors:
                continue
            if self.edges and f is None:
                continue
            if k == v:
                k = p
                break
            if k == p:
                k = '?'
        for p, v in asg.items():
            if f == p:
                f = '?'
        for t, pol in conds or ():
            if t[0] == 'bin' and (t[1] == 'Eq' and pol or t[1] == 'Ne' and not pol):
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    x, y = cast(x), cast(y)
                    if (self.at(x, (f, k, d)) or not self.edges and x[0] == 'fld' and x[1] == self.last) and end_of(self.f, y):
                        k = y
                        break
        return (f, k, d)

    def run(self):
        g = self.g
        start = {g.nodes[0].id: (None, None, '')}
        work = [g.nodes[0]]
        steps = 0
        init = {}
        while work and steps < 20000:
            n = work.pop()
            steps += 1
            out = self.transfer(n, start[n.id])
            for m, conds in n.succ:
                s = self.edge(n, m, conds, out)
                if self.edges and s[0] is None:
                    # nothing collected yet: the walk starts where the cursor is set to
                    for p, v in sorted((g.assigns.get((n.id, m.id)) or {}).items()):
                        if p in self.cursors and end_of(self.f, v):
                            s = (cast(v), p, '')
                new = self.join(start.get(m.id), s)
                if m.id not in start or new != start[m.id]:
                    start[m.id] = new
                    work.append(m)
        return {n.id: start.get(n.id) for n in g.nodes}


def builders(ctx):
    """functions that collect a walk: (function, graph, vector, cursor variables, arcs?)"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if '{closure' in f.key or not f.key.startswith('algo::') or EXCLUDED.search(f.key) or 'push' not in f._text:
            continue
        g = ctx.graph(f)
        f.parse()
        per = {}
        for n in g.events('call'):
            if n.id not in g.reach or n.ctx != 0 or n.d['method'] != 'push' or len(n.d['args']) < 2:
                continue
            v = n.d['args'][1]
            acc = [ptr_access(x) for x in [v] + list(subterms(v)) if ptr_access(x)]
            if not acc:
                continue
            v0 = v[3][0][1] if v[0] == 'agg' and v[1] in ('()', 'tuple') and v[3] else v
            comp = ptr_access(v0)[2] if ptr_access(v0) else '1'
            d = per.setdefault(n.d['args'][0], [set(), set()])
            d[0].add(comp == '1')
            d[1] |= {x for a in acc for x in [a[1]] if x[0] == 'phi'}
        for R, (kinds, cur) in sorted(per.items(), key=lambda kv: repr(kv[0])):
            # variables that are set to the next node
            for e, m in g.assigns.items():
                for p, v in m.items():
                    if ptr_access(v) and ptr_access(v)[2] == '0':
                        cur.add(p)
            yield f, g, R, cur, kinds == {True}


def rule_walks(ctx):
    for f, g, R, cur, edges in builders(ctx):
        w = Walk(ctx, f, g, R, cur, edges)
        st = w.run()
        for (subject, nid), (ok, detail, n) in sorted(w.obs.items()):
            ctx.ob('walk', '%s %s' % (fname(f), subject), ok, detail, n)
        for n in g.events('ret'):
            if n.ctx != 0 or n.id not in g.reach or st.get(n.id) is None:
                continue
            fr, bk, d = st[n.id]
            q = lambda t: end_of(f, t) if isinstance(t, tuple) else None
            txt = lambda t: show(t, 4) if isinstance(t, tuple) else 'an unknown node'
            ctx.ob('ends', '%s source' % fname(f), q(fr) == 'S', 'the path begins at %s instead of the source' % txt(fr), n)
            ctx.ob('ends', '%s target' % fname(f), q(bk) == 'T', 'the path ends at %s instead of the target' % txt(bk), n)
            ctx.ob('ends', '%s travel order' % fname(f), d in ('fw', ''), 'the nodes or arcs are not in travel order', n)
    ctx.floor('walk', 36)
    ctx.floor('ends', 30)


def rule_unpack(ctx):
    """a stack of arcs to be unpacked: every arc is replaced by its two parts, the first one on top; the heads of original arcs are collected in order"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if '{closure' in f.key or not re.search(r'^algo::contraction_hierarchy.*path$', f.key):
            continue
        g = ctx.graph(f)
        for n in g.events('call'):
            if n.id not in g.reach or n.ctx != 0 or n.d['method'] != 'pop' or len(n.d['args']) != 1:
                continue
            S = n.d['args'][0]
            pops = [m for m in g.events('call') if m.d['method'] == 'pop' and m.d['args'][0] == S]
            item = None
            pushes = [m for m in g.events('call') if m.id in g.reach and m.d['method'] == 'push' and m.d['args'][0] == S]
            for m in pushes + [m for m in g.events('call') if m.d['method'] == 'push']:
                for x in subterms(m.d['args'][1]):
                    if x[0] == 'fld' and x[2] in ('0', '1') and x[1][0] == 'fld' and x[1][2] == 'Some.0' and x[1][1][0] == 'call' and tail(x[1][1]) == 'pop' and x[1][1][2][0] == S:
                        item = x[1]
            if item is None:
                ctx.ob('unpack', fname(f), False, 'the arc taken from the stack is not used', n)
                continue
            t, h = ('fld', item, '0'), ('fld', item, '1')
            ctx.ob('unpack', '%s one stack' % fname(f), len(pops) == 1 and len(pushes) == 2, 'an arc has to be replaced by exactly two', n)
            if len(pushes) == 2:
                a, b = pushes if reaches(g, pushes[0], pushes[1], n) else pushes[::-1]
                va, vb = a.d['args'][1], b.d['args'][1]
                ok = va[0] == vb[0] == 'agg' and len(va[3]) == len(vb[3]) == 2 and va[3][1][1] == h and vb[3][0][1] == t and va[3][0][1] == vb[3][1][1]
                ctx.ob('unpack', '%s parts' % fname(f), ok, 'the two parts of an arc have to be put on the stack so that the one leaving its tail is taken first', b)
            # what is collected
            outs = [m for m in g.events('call') if m.id in g.reach and m.d['method'] == 'push' and m not in pushes and any(x in (t, h, item) for x in subterms(m.d['args'][1]))]
            ctx.ob('unpack', '%s collected' % fname(f), len(outs) == 1 and cast(outs[0].d['args'][1]) == h, 'the head of every original arc is collected', n)
            for m in outs:
                O = m.d['args'][0]
                first = [v for k, pl, v in stores(g) if pl == O and v[0] == 'agg' and v[1] == '[]']
                ctx.ob('unpack', '%s first node' % fname(f), len(first) == 1 and len(first[0][3]) == 1 and end_of(f, first[0][3][0][1]) == 'S', 'the path starts with the source', m)
            # the arcs come from consecutive nodes, in order
            init = [(k, v) for k, pl, v in stores(g) if pl == S and v[0] == 'agg' and v[1] == '[]']
            for k, v in init:
                e = v[3][0][1] if len(v[3]) == 1 else None
                ok = e is not None and e[0] == 'agg' and len(e[3]) == 2
                if ok:
                    x, y = cast(e[3][0][1]), cast(e[3][1][1])
                    ok = x[0] == y[0] == 'idx' and x[1] == y[1] and is_const(x[2], 0) and is_const(y[2], 1) and x[1][0] == 'elem' and x[1][1][0] == 'call' and tail(x[1][1]) == 'windows'
                ctx.ob('unpack', '%s arcs' % fname(f), ok, 'unpacking starts with the arc between two consecutive nodes', k)


def reaches(g, a, b, cut):
    """b can be reached from a without passing cut"""
    seen, work = {a.id}, [a]
    while work:
        n = work.pop()
        for m, _ in n.succ:
            if m is b or m.id == b.id:
                return True
            if m.id not in seen and m.id != cut.id:
                seen.add(m.id)
                work.append(m)
    return False


def rule_pointers(ctx):
    """loops along parent pointers end where these pointers lead to"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if '{closure' in f.key or not f.key.startswith('algo::') or EXCLUDED.search(f.key) or not re.search(r'path$', f.key):
            continue
        f.parse()
        g = ctx.graph(f)
        loops = natural_loops(g)
        for h, body in sorted(loops.items()):
            step, init = {}, {}
            for (a, b), m in g.assigns.items():
                for p, v in m.items():
                    if b == h and a in body:
                        step.setdefault(p, []).append(cast(v))
                    elif b == h:
                        init.setdefault(p, []).append(cast(v))
            for p, vs in sorted(step.items()):
                flat = []
                todo = list(vs)
                seen = set()
                while todo:
                    v = todo.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    if v[0] == 'phi' and v != p:
                        todo += [cast(m[v]) for e, m in g.assigns.items() if v in m]
                    elif v != p:
                        flat.append(v)
                acc = [ptr_access(v) for v in flat]
                if not acc or not all(a and a[2] == '0' for a in acc) or not all(a[1] == p or a[1][0] == 'phi' for a in acc):
                    continue
                back = is_back(acc[0][0])
                ends = set()
                for n in g.nodes:
                    if n.id in body and n.id in g.reach:
                        for m, conds in n.succ:
                            for t, pol in conds or ():
                                if m.id not in body and t[0] == 'bin' and t[1] in ('Eq', 'Ne') and p in (cast(t[2]), cast(t[3])):
                                    ends.add((end_of(f, t[3] if cast(t[2]) == p else t[2]), pol == (t[1] == 'Eq')))
                ctx.ob('pointer-loops', '%s end' % fname(f), ends == {('T' if back else 'S', True)}, 'pointers towards the %s are followed until another node is reached' % ('target' if back else 'source'), g.byid()[h])
                # inverted or rewritten pointers: nothing may be left out
                wr = [n for n, pl, v in stores(g) if n.id in body and ptr_access(pl) and is_back(ptr_access(pl)[0])]
                st = {end_of(f, v) for v in init.get(p, [])}
                if wr:
                    ctx.ob('pointer-loops', '%s start' % fname(f), st == ({'S'} if back else {'M'}) or st == {'M'} and not back, 'rewriting the pointers starts at the wrong node', g.byid()[h])
        # inverting: the pointer of the parent leads to the child along the same arc
        for n, pl, v in stores(g):
            pa = ptr_access(pl)
            if n.id not in g.reach or not pa or not is_back(pa[0]):
                continue
            x = ptr_access(pa[1])
            if not x or is_back(x[0]):
                continue
            parts = [(pa[2], v)] if pa[2] is not None else list(v[3]) if v[0] == 'agg' else []
            for c, w in parts:
                w = cast(w)
                e = ptr_access(w)
                ok = w == x[1] if c == '0' else e is not None and e[0] == x[0] and e[1] == x[1] and e[2] == '1'
                ctx.ob('inverted', '%s %s' % (fname(f), 'node' if c == '0' else 'arc'), x[2] == '0' and ok, 'the pointer from a parent to its child does not name the child and the arc between the two', n)
    ctx.floor('pointer-loops', 20)
    ctx.floor('inverted', 2)


def rule_arguments(ctx):
    """a path is asked for with source and target in their places"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not f.key.startswith('algo::') or EXCLUDED.search(f.key) or not re.search(r'path\(', f._text):
            continue
        f.parse()
        g = ctx.graph(f, key='shallow', opaque=lambda h: True)
        for n in g.events('call'):
            if n.id not in g.reach or not re.search(r'^((node|edge)_)?path$', n.d['method'] or ''):
                continue
            ends = [end_of(f, a) for a in n.d['args']]
            if 'S' in ends or 'T' in ends:
                ctx.ob('arguments', '%s calls %s' % (fname(f), n.d['method']), ends[-2:] == ['S', 'T'], 'a path from the target to the source is asked for', n)
    ctx.floor('arguments', 5)


# ------------------------------------------------------------------ results
def sources(g, t, outer=None, seen=None):
    """(edges passed, value): the alternatives of a value with the assignments it went through"""
    seen = seen or frozenset()
    if t[0] == 'phi' and t not in seen:
        any_ = False
        for e, m in g.assigns.items():
            if t in m:
                any_ = True
                yield from sources(g, m[t], (outer or ()) + ((e, m[t]),), seen | {t})
        if not any_:
            yield outer or (), t
    else:
        yield outer or (), t


def infinite(t):
    t = cast(t)
    return t[0] == 'const' and (t[1] in ('INFINITY', 2147483647) or re.search('INFINITY|NEVER', str(t[1])) is not None)


def base(t):
    """minuend of elapsed time"""
    t = cast(t)
    while t[0] == 'bin' and t[1] == 'Sub':
        t = cast(t[2])
    return t


def conds_at(g, edge):
    """conditions that hold when the edge is passed; a single node instead of an edge: conditions that hold there"""
    conds = set(g.guards(g.byid()[edge[0]]))
    for m, cc in g.byid()[edge[0]].succ:
        if len(edge) > 1 and m.id == edge[1]:
            conds |= set(cc or ())
    return conds


def finite_at(g, edge, v):
    """the value was compared with infinity on every path to the edge"""
    conds = conds_at(g, edge)
    for t, pol in conds:
        if t[0] != 'bin':
            continue
        l, r = cast(t[2]), cast(t[3])
        if infinite(l):
            l, r, op = r, l, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(t[1], t[1])
        else:
            op = t[1]
        if l in (cast(v), base(v)) and infinite(r) and (op == 'Lt' and pol or op == 'Ge' and not pol or op == 'Eq' and not pol or op == 'Ne' and pol):
            return True
    return False


def settled_end(f, g, edge, v):
    """the distance of an end of the query that was just removed from the queue"""
    v = base(v)
    for t, pol in conds_at(g, edge):
        if t[0] == 'is' and t[2] == 'Some' and pol and any(z[0] == 'call' and tail(z) == 'join' for z in subterms(t[1])):
            return True     # meeting node reported by one of two parallel searches
        if t[0] == 'bin' and (t[1] == 'Eq' and pol or t[1] == 'Ne' and not pol):
            if is_const(v, 0) and {end_of(f, t[2]), end_of(f, t[3])} == {'S', 'T'}:
                return True
            for x, y in ((cast(t[2]), cast(t[3])), (cast(t[3]), cast(t[2]))):
                if end_of(f, y) in ('S', 'T') and any(z[0] == 'call' and tail(z) == 'pop' for z in [x] + list(subterms(x))):
                    if v[0] == 'idx' and (cast(v[2]) == x or end_of(f, v[2]) == end_of(f, y)):
                        return True
    return False


def rule_found(ctx):
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        f.parse()
        if '{closure' in f.key or 'QueryResult<' not in f.ret or not f.key.startswith('algo') or not re.search(r'::(query|td_query|distance_with_cap)$', f.key):
            continue
        g = ctx.graph(f)
        q = [('arg', i) for i in f.args[1:] if 'Query' in f.types[i] or re.fullmatch('[A-Z][A-Za-z]*', f.types[i])]
        for n in g.events('ret'):
            if n.ctx != 0 or n.id not in g.reach or n.d['value'][0] != 'agg':
                continue
            d = dict(n.d['value'][3])
            ps = d.get('path_server')
            if ps is not None and ps[0] == 'agg' and ps[1] != 'Option':
                kept = [v for k, v in ps[3][1:]]
                ctx.ob('kept-query', fname(f), all(v in q for v in kept), 'the query kept for the path is not the one that was run', n)
            for path, v in sources(g, d['distance']):
                path = path or (((n.id,), v),)
                if v[0] == 'agg' and v[2] == 'None':
                    continue
                if v[0] == 'agg' and v[2] == 'Some':
                    pay = v[3][0][1]
                    ok = finite_at(g, path[-1][0], pay) or settled_end(f, g, path[-1][0], pay)
                    bad = None
                    if not ok:
                        for pp, w in sources(g, pay):
                            hops = pp or ((path[-1][0], w),)
                            if not any(finite_at(g, e, x) or settled_end(f, g, e, x) for e, x in hops) and not finite_at(g, path[-1][0], w):
                                bad = w
                                break
                        ok = bad is None
                    ctx.ob('found', fname(f), ok, 'a distance is reported although the target may not have been reached: %s' % show(bad or pay, 5), g.byid()[path[-1][0][0]])
                elif v[0] == 'fld' and v[2] == 'distance' and v[1][0] == 'call':
                    # answer of an inner server: its path server is handed on with it
                    e = path[-1][0]
                    phi = d['path_server']
                    other = [w for pp, w in sources(g, phi) if pp and pp[-1][0] == e]
                    ok = bool(other) and all(w[0] == 'agg' and w[2] == 'Some' for w in other)
                    ctx.ob('found', fname(f), ok, 'a distance is handed on without the object that can report its path', n)
                else:
                    ctx.ob('found', fname(f), False, 'the distance reported is %s' % show(v, 4), n)
    ctx.floor('found', 20)
    ctx.floor('kept-query', 20)


def rule_accessors(ctx):
    """QueryResult answers with a path exactly if there is a distance"""
    fs = [f for f in ctx.P.funcs.values() if re.match(r'algo::<impl', f.key) and re.search(r'::(node_path|edge_path|found)$', f.key)]
    for f in sorted(fs, key=lambda f: f.key):
        f.parse()
        if 'Option' not in f.ret:
            continue
        g = ctx.graph(f)
        dist = ('fld', ('arg', 1), 'distance')
        for n in g.events('ret'):
            if n.ctx != 0 or n.id not in g.reach:
                continue
            for path, v in sources(g, n.d['value']):
                if v[0] != 'agg' or v[2] not in ('Some', 'None'):
                    ctx.ob('accessors', fname(f), False, 'the answer is %s' % show(v, 4), n)
                    continue
                edge = path[-1][0] if path else (n.id,)
                node = g.byid()[edge[0]]
                ok = any(t[0] == 'is' and t[1] == dist and t[2] in ('Some', 'None') and (t[2] == v[2]) == pol for t, pol in conds_at(g, edge))
                ctx.ob('accessors', '%s %s' % (fname(f), v[2]), ok, 'a path must be available exactly if a distance was found', node)
                if v[2] == 'Some' and 'path' in f.key.rsplit('::', 1)[1]:
                    want = 'reconstruct_' + f.key.rsplit('::', 1)[1]
                    w = v[3][0][1]
                    ctx.ob('accessors', '%s source' % fname(f), w[0] == 'call' and tail(w) == want, 'nodes and arcs of a path are exchanged', node)
    # paths without arc data: one arc less than nodes
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not f.key.endswith('::reconstruct_edge_path') or '{closure' in f.key:
            continue
        g = ctx.graph(f)
        for n in g.events('ret'):
            v = n.d['value']
            if n.ctx != 0 or n.id not in g.reach or v[0] != 'call' or tail(v) != 'from_elem':
                continue
            c = cast(v[2][1])
            ok = c[0] == 'bin' and c[1] == 'Sub' and is_const(cast(c[3]), 1) and (c[2][0] == 'len' or c[2][0] == 'call' and tail(c[2]) == 'len')
            ctx.ob('arc-count', fname(f), ok, 'a path has one arc less than it has nodes', n)
    ctx.floor('accessors', 8)
    ctx.floor('arc-count', 5)


RULES = [('walks', rule_walks), ('pointers', rule_pointers), ('unpack', rule_unpack), ('arguments', rule_arguments), ('found', rule_found), ('accessors', rule_accessors)]
