"""C09 Directions: every shortcut stands for a path between its own end points, forward and backward data are never exchanged."""
from framework import *
from rules import *
from core import *
from flow import *
import re

ID = 'C09'
CRATES = 'engine'
EXPLANATION = (
    'Customization: every store into a weight of a CCH arc (directly, or through the workspace that is copied back) is matched against the arcs the two summands belong to; the end points of every arc id are '
    'derived symbolically from the range, the inverted graph or the workspace it was taken from, and the sum must be a path from the start to the end of the connection whose weight changes, be stored only if it is smaller, '
    'and mark or record the same two arcs. Unpacking: the parts returned for an arc are the parts recorded for its direction, the middle node is the lower end of the first part, and all four links are replaced. '
    'Node contraction: shortcuts lead from an in-neighbour to an out-neighbour with the length of the path over the removed node, are entered on both sides, and are left out only on the branch where a shorter witness was found. '
    'Perfect customization: rows of the rebuilt graph are written at one position per direction and parts are renumbered with the ids of their own direction. '
    'Crate-wide: for each call, record, store and getter, parameters and fields whose name states a direction receive data of that direction, or all of them change direction together (reverse graphs).')
ASSUMPTIONS = ['the direction of data is the one stated by the name of the field, accessor, parameter or local variable that holds it',
               'separator-based splitting of the customization is covered by a different property; time-dependent (CATCHUp) triangles are excluded']
CCH = 'algo::customizable_contraction_hierarchy::'
FW = re.compile(r'(^|_)(fw|fwd|forward|up|upward|outgoing)(_|$)')
BW = re.compile(r'(^|_)(bw|bwd|backward|down|downward|incoming)(_|$)')


def tag(s):
    s = str(s).split('.')[-1].split('::')[-1]
    a, b = bool(FW.search(s)), bool(BW.search(s))
    return 'F' if a and not b else 'B' if b and not a else None


# ------------------------------------------------------------------ arcs and their end points
def cast(t):
    """the value below conversions and wrappers"""
    while True:
        if t[0] == 'fld' and t[2] in ('Ok.0', 'Some.0') and t[1][0] == 'call' and tail(t[1]) in ('try_from', 'try_into'):
            t = t[1][2][0]
        elif t[0] == 'call' and tail(t) in ('clone', 'into', 'from', 'as_ref', 'borrow', 'deref', 'copied', 'cloned') and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'agg' and t[1] in ('InRangeOption', 'EdgeIdT', 'NodeIdT', 'Reversed') and len(t[3]) == 1:
            t = t[3][0][1]
        else:
            return t


def field(t, names):
    """(base, name) of a field or accessor call called one of names"""
    t = cast(t)
    if t[0] == 'fld' and re.search(names, t[2].split('.')[-1]):
        return t[1], t[2].split('.')[-1]
    if t[0] == 'call' and len(t[2]) == 1 and re.search(names, tail(t)):
        return t[2][0], tail(t)
    return None


class Arcs:
    """end points of arc ids of one event graph: (tail node, head node, colour of the graph the id belongs to)"""

    def __init__(self, g):
        self.g, self.A = g, g.A
        self.ws = {}     # (workspace, suffix) -> [(node, value, event)]
        for n, pl, v in stores(g):
            if n.id not in g.reach:
                continue
            w = self.cell(pl)
            if w:
                self.ws.setdefault((w[0], w[2]), []).append((w[1], v, n))

    def cell(self, t):
        """workspace cell: (workspace, node index, field path)"""
        suf = []
        while t[0] == 'fld':
            suf.append(t[2])
            t = t[1]
        if t[0] == 'idx' and t[1][0] == 'call' and ('ScopedKey' in t[1][1] or 'LocalKey' in t[1][1]):
            return show(t[1]), t[2], '.'.join(reversed(suf))
        return None

    def range_of(self, t):
        """(array of first positions, node) if t is the range of the arcs of a node, maybe shifted by an offset"""
        t = cast(t)
        if t[0] != 'agg' or t[1] not in ('Range',) or len(t[3]) != 2:
            return None
        lo, hi = cast(t[3][0][1]), cast(t[3][1][1])
        off = None
        if lo[0] == 'bin' and lo[1] == 'Sub' and hi[0] == 'bin' and hi[1] == 'Sub':
            if lo[3] != hi[3]:
                return None
            off = lo[3]
            lo, hi = cast(lo[2]), cast(hi[2])
        if lo[0] != 'idx' or hi[0] != 'idx' or lo[1] != hi[1]:
            return None
        x, y = cast(lo[2]), cast(hi[2])
        if not (y[0] == 'bin' and y[1] == 'Add' and {y[2], y[3]} >= {('const', 1)} and (cast(y[3]) == x or cast(y[2]) == x)):
            return None
        fo = field(lo[1], 'first_out$')
        if not fo:
            return None
        return fo, x, off

    def colour(self, fo):
        return tag(fo[1]) or tag(show(fo[0]).split('.')[-1])

    def graph_key(self, base, name):
        inv = field(base, 'inverted$')
        if inv:
            return 'INV', tag(inv[1]), show(inv[0])
        return 'G', tag(name), show(base)

    def node(self, t):
        """canonical node"""
        t = cast(t)
        if t[0] == 'elem':
            s = t[1]
            if s[0] == 'slice':
                r = self.range_of(s[2])
                h = field(s[1], 'head$')
                if r and h and r[2] is None:
                    k = self.graph_key(r[0][0], r[0][1])
                    if self.graph_key(h[0], h[1]) == k:
                        return ('H', k, self.node(r[1]))
            if s[0] == 'idx' and s[1][0] == 'agg' and s[1][1] == 'Slcs':
                fo, h = field(s[1][3][0][1], 'first_out$'), field(s[1][3][1][1], 'head$')
                if fo and h:
                    k = self.graph_key(fo[0], fo[1])
                    if self.graph_key(h[0], h[1]) == k:
                        return ('H', k, self.node(s[2]))
        return ('n', show(t, 30))

    def arc(self, t, depth=4):
        """(tail, head, colour) of an arc id, or None"""
        t = cast(t)
        if depth == 0:
            return None
        if t[0] == 'bin' and t[1] == 'Sub':
            return self.arc(t[2], depth)
        if t[0] == 'fld' and t[2] in ('0', 'Some.0', '0.0') and self.cell(t) is None:
            return self.arc(t[1], depth)
        if t[0] == 'elem':
            r = self.range_of(t[1])
            if r:
                return self.arcs_at(r)
            if t[1][0] == 'slice':
                r = self.range_of(t[1][2])
                e = field(t[1][1], 'edge_ids$')
                if r and e:
                    k = self.graph_key(r[0][0], r[0][1])
                    if k[0] == 'INV' and k == self.graph_key(e[0], e[1]):
                        x = self.node(r[1])
                        return (('H', k, x), x, k[1])
        # lookup of an arc id in a workspace indexed by head
        u, c = t, self.cell(t)
        while c and (c[0], c[2]) not in self.ws and c[2]:
            u = u[1]
            c = self.cell(u)
        if c:
            res = set()
            for nd, v, n in self.ws.get((c[0], c[2]), ()):
                if v == NONE or (v[0] == 'const' and 'NONE' in str(v[1])):
                    continue
                a = self.arc(v, depth - 1)
                if a is None or self.node(nd) != a[1]:
                    return None
                res.add((a[0], self.node(c[1]), a[2]))
            if len(res) == 1:
                return res.pop()
        return None

    def arcs_at(self, r):
        k = self.graph_key(r[0][0], r[0][1])
        x = self.node(r[1])
        h = ('H', k, x)
        return (h, x, k[1]) if k[0] == 'INV' else (x, h, k[1])

    def access(self, t):
        """(array, arc) if t is the entry of a per-arc array"""
        t = cast(t)
        if t[0] == 'elem' and t[1][0] == 'slice':
            r = self.range_of(t[1][2])
            if r:
                return t[1][1], self.arcs_at(r), show(r[0][0]) + r[0][1] + show(r[1], 30)
        if t[0] == 'idx':
            a = self.arc(t[2])
            if a:
                return t[1], a, None
        if t[0] == 'call' and tail(t) in ('add', 'offset') and len(t[2]) == 2:
            a = self.arc(t[2][1])
            if a:
                return t[2][0], a, None
        return None


class Weights:
    """directions of the arrays of a customization routine"""

    def __init__(self, f, g):
        self.f, self.g = f, g
        self.names = {}
        for nm, places in f.debug.items():
            for p in places:
                m = re.match(r'_(\d+)$', str(p))
                if m:
                    self.names[int(m.group(1))] = nm

    def colour(self, arr):
        if arr[0] == 'arg':
            t = tag(self.names.get(arr[1], ''))
            if t:
                return t
        c = {tag(x[2]) for x in [arr] + list(subterms(arr)) if x[0] == 'fld'} - {None}
        return c.pop() if len(c) == 1 else None


def ends(arc, colour):
    """(from, to) of the connection whose weight an array of this colour holds for the arc"""
    return (arc[0], arc[1]) if colour == 'F' else (arc[1], arc[0])


def nshow(n):
    return n[1] if n[0] == 'n' else 'head(%s)' % nshow(n[2])


def customizations(ctx):
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if f.key.startswith(CCH + 'customization::') and '::ftd' not in f.key and '::parallelization' not in f.key and '{closure' in f.key:
            if f.key.count('{closure') == 1:
                yield f


def sums(v):
    v = cast(v)
    if v[0] == 'bin' and v[1] == 'Add':
        return v[2], v[3]
    if v[0] == 'call' and tail(v) == 'add' and len(v[2]) == 2:
        return v[2]
    return None


def unwrap_min(v, pl):
    """the new value in x = min(x, v)"""
    if v[0] == 'bin' and v[1] == 'min':
        rest = [x for x in (v[2], v[3]) if x != pl]
        if len(rest) == 1:
            return rest[0]
    if v[0] == 'call' and tail(v) == 'min' and len(v[2]) == 2:
        rest = [x for x in v[2] if x != pl]
        if len(rest) == 1:
            return rest[0]
    return v


class Routine:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.g = ctx.graph(f)
        self.T = Arcs(self.g)
        self.W = Weights(f, self.g)
        # workspaces that carry per-arc weights of the current node: (workspace, field) -> (array, tail node)
        self.carry = {}
        for (w, suf), es in self.T.ws.items():
            for nd, v, n in es:
                a = self.T.access(v)
                if a and self.T.node(nd) == a[1][1]:
                    self.carry.setdefault((w, suf), set()).add((a[0], a[1][0], a[1][2]))

    def target(self, pl):
        """[(array, arc)] a store changes: directly, or when the workspace is copied back"""
        a = self.T.access(pl)
        if a:
            return [a[:2]]
        c = self.T.cell(pl)
        if c and (c[0], c[2]) in self.carry:
            nd = self.T.node(c[1])
            return [(arr, (x, nd, col)) for arr, x, col in self.carry[(c[0], c[2])]]
        return []

    def weight(self, t):
        """(array, arc) of a weight that is read"""
        a = self.T.access(t)
        if a:
            return a[:2]
        c = self.T.cell(cast(t))
        if c and (c[0], c[2]) in self.carry and len(self.carry[(c[0], c[2])]) == 1:
            arr, x, col = next(iter(self.carry[(c[0], c[2])]))
            return arr, (x, self.T.node(c[1]), col)
        return None


def same_arc(a, b):
    return a is not None and b is not None and a[:2] == b[:2]


def rule_triangles(ctx):
    canon = None
    for f in customizations(ctx):
        R = Routine(ctx, f)
        g, T, W = R.g, R.T, R.W
        st = [(n, pl, v) for n, pl, v in stores(g) if n.id in g.reach]
        relax = []
        for n, pl, v in st:
            s = sums(unwrap_min(v, pl))
            tg = R.target(pl)
            if not s or not tg:
                continue
            relax.append((n, pl, v, s, tg))
        if not relax:
            continue
        arrays = {show(a) for _, _, _, _, tg in relax for a, _ in tg}
        for n, pl, v, s, tg in relax:
            subj = '%s %s' % (fname(f), show(pl, 3)[-60:])
            ops = [R.weight(x) for x in s]
            why = None
            c = None
            if any(o is None or W.colour(o[0]) is None for o in ops):
                why = 'the sum is not made of two arc weights of known direction'
            elif len(tg) != 1 or W.colour(tg[0][0]) is None:
                why = 'the changed weight belongs to no single direction'
            else:
                arr, arc = tg[0]
                c = W.colour(arr)
                for o in ops + [tg[0]]:
                    oc = W.colour(o[0])
                    if o[1][2] not in (None, oc):
                        why = 'an arc id of the %s graph is used for the %s weights' % (('forward', 'backward') if oc == 'B' else ('backward', 'forward'))
                if why is None:
                    s0, e0 = ends(arc, c)
                    es = [ends(o[1], W.colour(o[0])) for o in ops]
                    first = None
                    if es[0][0] == s0 and es[0][1] == es[1][0] and es[1][1] == e0:
                        first = 0
                    elif es[1][0] == s0 and es[1][1] == es[0][0] and es[0][1] == e0:
                        first = 1
                    if first is None:
                        why = 'the new weight is not the length of a path from the start to the end of the connection: %s -> %s gets %s' % (
                            nshow(s0), nshow(e0), ' + '.join('%s -> %s' % (nshow(a), nshow(b)) for a, b in es))
            ctx.ob('shortcut-is-a-path', subj, why is None, why or '', n)
            if why:
                continue
            p = None
            if unwrap_min(v, pl) is v:
                p = improving(g, n, v, pl)
            ctx.ob('shortcut-only-shortens', subj, p is None, 'the weight is overwritten although the sum need not be smaller', n, p)
            companions(ctx, R, st, n, pl, ops, first, tg[0], c, subj, arrays)
        unjustified(ctx, R, st, relax, arrays, f)
        writeback(ctx, R, st, relax, f)
    ctx.floor('shortcut-is-a-path', 16)
    ctx.floor('shortcut-only-shortens', 16)
    ctx.floor('shortcut-parts', 4)
    ctx.floor('shortcut-flag', 12)
    ctx.floor('flag-justified', 12)
    ctx.floor('written-back', 12)


def improving(g, n, v, pl):
    """a path to the store that does not compare the new value with the old one"""
    es = set()
    for x in g.nodes:
        if x.id in g.reach:
            for m, cc in x.succ:
                for t, pol in cc:
                    lt = less(t, pol)
                    if lt and lt[0] == v and (lt[1] == pl or lt[1] == ('ref', pl)):
                        es.add((x.id, m.id))
    by = g.byid()
    for s in [g.root] + [by[h] for h in heads_of(g, n.id)]:
        if s is n:
            continue
        p = walk(g, s, {n.id}, set(), es)
        if p:
            return p
    return None


def less(t, pol):
    """(a, b) with a <= b (and not b < a) implied"""
    if t[0] == 'bin' and t[1] in ('Lt', 'Gt', 'Le', 'Ge'):
        op, a, b = t[1], t[2], t[3]
    elif t[0] == 'call' and tail(t) in ('lt', 'gt', 'le', 'ge') and len(t[2]) == 2:
        op, a, b = tail(t).capitalize(), t[2][0], t[2][1]
    else:
        return None
    if op in ('Gt', 'Ge'):
        a, b = b, a
    return (a, b) if pol else (b, a)


def companions(ctx, R, st, n, pl, ops, first, tgt, c, subj, arrays):
    g, T, W = R.g, R.T, R.W
    cell = T.cell(pl)
    if cell:
        # the parts of the shortcut are kept beside the weight
        for suf, want, nm in (('1', ops[first][1], 'first'), ('2', ops[1 - first][1], 'second')):
            mine = [(m, v) for m, q, v in st if T.cell(q) and T.cell(q)[0] == cell[0] and T.cell(q)[1] == cell[1] and T.cell(q)[2] == suf]
            good = [m for m, v in mine if same_arc(T.arc(v), want)]
            p = coupled(g, n, good) if good else [n]
            ctx.ob('shortcut-parts', '%s %s part' % (subj, nm), p is None, 'the %s arc of the path the new weight stands for is not recorded with it' % nm, n, p)
        return
    comp = []
    for m, q, v in st:
        a = T.access(q)
        if a and show(a[0]) not in arrays and same_arc(a[1], tgt[1]) and W.colour(a[0]) == c:
            comp.append((m, q, v))
    good = []
    for m, q, v in comp:
        if v == TRUE:
            good.append(m)
        else:
            # latest validity of both parts
            xs = v[2] if v[0] == 'call' and tail(v) == 'max' else (v[2], v[3]) if v[0] == 'bin' and v[1] == 'max' else ()
            acc = [T.access(x) for x in xs]
            if len(acc) == 2 and all(acc):
                got = {(a[1][:2], W.colour(a[0])) for a in acc}
                if got == {(o[1][:2], W.colour(o[0])) for o in ops}:
                    good.append(m)
    p = coupled(g, n, good) if good else [n]
    ctx.ob('shortcut-flag', subj, p is None, 'the changed weight is not marked for the same arc and direction', n, p)


def unjustified(ctx, R, st, relax, arrays, f):
    """marks without a change of the weight"""
    g, T, W = R.g, R.T, R.W
    for m, q, v in st:
        a = T.access(q)
        if not a or show(a[0]) in arrays or T.cell(q) or W.colour(a[0]) is None or (v[0] == 'fld'):
            continue
        ws = [n for n, pl, _, _, tg in relax if not T.cell(pl) and same_arc(tg[0][1], a[1]) and W.colour(tg[0][0]) == W.colour(a[0])]
        p = coupled(g, m, ws) if ws else [m]
        ctx.ob('flag-justified', '%s %s' % (fname(f), show(q, 3)[-60:]), p is None, 'an arc is marked as changed although its weight in this direction was not', m, p)


def writeback(ctx, R, st, relax, f):
    g, T, W = R.g, R.T, R.W
    for m, q, v in st:
        sub = None
        a = T.access(q)
        if not a and q[0] == 'fld' and q[2] in ('0', '1'):
            a, sub = T.access(q[1]), q[2]
        if not a or T.cell(q):
            continue
        cv = T.cell(v)
        if not cv:
            continue
        if sub is None:
            want = R.weight(v)
            ok = want is not None and show(want[0]) == show(a[0]) and same_arc(want[1], a[1])
            ctx.ob('written-back', '%s %s' % (fname(f), show(q, 3)[-60:]), ok, 'the weight found for one arc or direction is stored for another', m)
        else:
            k = [x for x in R.carry if x[0] == cv[0]]
            arr = {y[0] for x in k for y in R.carry[x]}
            tails = {y[1] for x in k for y in R.carry[x]}
            ok = (len(arr) == 1 and W.colour(next(iter(arr))) == W.colour(a[0]) is not None and cv[2] == {'0': '1', '1': '2'}[sub]
                  and tails == {a[1][0]} and T.node(cv[1]) == a[1][1])
            ctx.ob('written-back', '%s %s' % (fname(f), show(q, 3)[-60:]), ok, 'the parts of a shortcut are stored for another arc, direction or position', m)


# ------------------------------------------------------------------ data of one direction handed on as data of that direction
SIZES = ('len', 'num_nodes', 'num_arcs', 'capacity', 'is_empty')


def arg_names(f):
    r = {}
    for nm, places in f.debug.items():
        for p in places:
            m = re.match(r'_(\d+)$', str(p))
            if m:
                r[int(m.group(1))] = nm
    return r


class Leaves:
    """directions of the data a value is made of (sizes excepted)"""

    tuples = {}     # function -> {component of the tuple returned: direction}

    def __init__(self, f, g, fresh=False):
        self.g, self.names, self.fresh = g, arg_names(f), fresh
        self.big = {i: k[1] for k, i in g.A.interned.items() if k[0] == 'big'} if hasattr(g.A, 'interned') else {}
        self.memo = {}

    def of(self, t, alts=False):
        r = self.walk(t)
        if alts:
            for a in self.g.A.alternatives(t):
                r = r | self.walk(a)
        return r

    def walk(self, t, depth=0):
        if not isinstance(t, tuple) or not t:
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        if not isinstance(t[0], str):
            r = frozenset().union(*[self.walk(x, depth) for x in t])
            self.memo[t] = r
            return r
        self.memo[t] = frozenset()
        if self.fresh and t[0] == 'call' and tail(t) in ('from_elem', 'with_capacity'):
            # a fresh vector belongs to the data it is sized after
            r = frozenset().union(*[self.walk(x[1], depth) if x[0] == 'len' else self.walk(x[2], depth) if x[0] == 'call' and tail(x) in SIZES else frozenset() for x in t[2]])
        elif t[0] == 'fld' and t[2] in self.tuples.get(t[1][1] if t[1][0] == 'call' else None, ()):
            r = frozenset([self.tuples[t[1][1]][t[2]]])
        elif t[0] == 'big' and len(t) == 2 and t[1] in self.big:
            r = self.walk(self.big[t[1]], depth + 1) if depth < 4 else frozenset()
        elif t[0] == 'len' or (t[0] == 'call' and tail(t) in SIZES):
            r = frozenset()
        else:
            own = tag(t[2]) if t[0] == 'fld' else tag(tail(t)) if t[0] == 'call' else tag(self.names.get(t[1], '')) if t[0] == 'arg' else None
            r = frozenset([own] if own else []).union(*[self.walk(x, depth) for x in t[1:] if isinstance(x, tuple)])
        self.memo[t] = r
        return r


def one(s):
    return next(iter(s)) if len(s) == 1 else None


def coupling(ctx, rule, subject, pairs, node, detail, crossed=None):
    """pairs {name: straight?}: either every datum keeps its direction or all of them change it together"""
    vals = set(pairs.values())
    ok = len(vals) <= 1 and (vals != {False} or len(pairs) >= 2 or crossed is True)
    if crossed is not None:
        ok = vals <= {not crossed}
    bad = [k for k, v in pairs.items() if v == (crossed if crossed is not None else False)] or list(pairs)
    ctx.ob(rule, subject, ok, '%s: %s' % (detail, ', '.join(sorted(bad))), node)


def whole(ctx):
    return [f for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key)
            if '{closure' not in f.key and '::report::' not in f.key and not f.key.startswith('experiments::catchup')]


def flat(ctx, f):
    """graph of the function alone (its closures inlined)"""
    return ctx.graph(f, 'flat', opaque=lambda x: '{closure' not in x.key)


def returned(ctx):
    """directions of the components of returned tuples"""
    for f in whole(ctx):
        f.parse()
        if f.key.startswith(CCH) and f.ret.startswith('('):
            g = flat(ctx, f)
            L = Leaves(f, g, True)
            d = {}
            for n in g.events('ret'):
                if n.ctx == 0 and n.id in g.reach and n.d['value'][0] == 'agg':
                    for k, w in n.d['value'][3]:
                        d.setdefault(k, set()).update(L.of(w))
            d = {k: one(w) for k, w in d.items() if one(w)}
            if d:
                Leaves.tuples[f.key] = d


def rule_calls(ctx):
    """arguments of workspace calls"""
    returned(ctx)
    by = {}
    for h in ctx.P.funcs.values():
        if '{closure' not in h.key:
            by.setdefault(h.short, []).append(h)
            by.setdefault(h.key, []).append(h)
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        g = flat(ctx, f)
        L = None
        for n in g.events('call'):
            if n.id not in g.reach or not by.get(n.d['key']):
                continue
            h = by[n.d['key']][0]
            h.parse()
            pn = arg_names(h)
            if not any(tag(x) for x in pn.values()):
                continue
            L = L or Leaves(f, g, True)
            pairs = {}
            for i, a in enumerate(n.d['args'], 1):
                t = tag(pn.get(i, ''))
                l = one(L.of(a, True)) if t else None
                if t and l:
                    pairs[pn[i]] = t == l
            if pairs:
                coupling(ctx, 'call-directions', '%s calls %s' % (fname(f), fname(h)), pairs, n,
                         'data of one direction is passed as data of the other while the rest of the call is not', False if f.key.startswith(CCH + 'customization') else None)
    ctx.floor('call-directions', 60)


def rule_records(ctx):
    """records built"""
    for f in whole(ctx):
        g = flat(ctx, f)
        L = Leaves(f, g)
        cross = None
        nm = f.key.rsplit('::', 1)[-1]
        if re.match(r'(forward|backward)_\w*potential', nm):
            cross = nm.startswith('backward')
        elif f.key.startswith(CCH):
            cross = False
        seen = set()
        for n in g.nodes:
            if n.id not in g.reach:
                continue
            for v in n.d.values():
                for y in (v if isinstance(v, (list, tuple)) and v and isinstance(v[0], tuple) else [v]):
                    if not (isinstance(y, tuple) and y and isinstance(y[0], str)):
                        continue
                    for x in [y] + list(subterms(y)):
                        if x[0] != 'agg' or x in seen:
                            continue
                        seen.add(x)
                        pairs = {}
                        for k, w in x[3]:
                            t = tag(k)
                            l = one(L.of(w)) if t else None
                            if t and l:
                                pairs[k] = t == l
                        if pairs:
                            coupling(ctx, 'record-directions', '%s builds %s' % (fname(f), x[1]), pairs, n,
                                     'the record is filled with data of the opposite direction', cross)
    ctx.floor('record-directions', 30)


def rule_stores(ctx):
    """stores into data of a direction"""
    for f in whole(ctx):
        if not (f.key.startswith(CCH) or f.key.startswith('algo::contraction_hierarchy')):
            continue
        g = flat(ctx, f)
        L = Leaves(f, g)
        for n, pl, v in stores(g):
            if n.id not in g.reach:
                continue
            a, b = one(L.of(pl)), one(L.of(unwrap_min(v, pl)))
            if a and b:
                ctx.ob('store-directions', '%s %s' % (fname(f), show(pl, 3)[:60]), a == b,
                       'data of one direction is stored among data of the other', n)
    ctx.floor('store-directions', 10)


def rule_getters(ctx):
    """values returned under the name of a direction"""
    for f in whole(ctx):
        nm = f.key.rsplit('::', 1)[-1]
        t = tag(nm)
        if not f.key.startswith(CCH) or not t or nm.startswith('unpack'):
            continue
        g = flat(ctx, f)
        L = Leaves(f, g)
        for n in g.events('ret'):
            if n.ctx != 0 or n.id not in g.reach:
                continue
            l = L.of(n.d.get('value', ()), True) if 'value' in n.d else frozenset()
            if l:
                ctx.ob('getter-directions', fname(f), l == {t}, 'what is returned under the name of one direction belongs to the other', n)
    ctx.floor('getter-directions', 8)


# ------------------------------------------------------------------ shortcuts are replaced by the arcs they stand for
def inner(t):
    """the value below option and id wrappers"""
    t = cast(t)
    while t[0] == 'fld' and t[2] in ('0', 'Some.0') and t[1][0] == 'fld' and t[1][2] in ('0', '1', '2') and t[1][1][0] == 'idx':
        t = t[1]
    return cast(t)


def some(g, v):
    return [dict(a[3]) for x in g.A.alternatives(v) if x[0] == 'agg' and x[2] == 'Some' for a in [x[3][0][1]] if a[0] == 'agg']


def rule_unpack(ctx):
    for f in whole(ctx):
        if not f.key.startswith(CCH) or f.impl is None:
            continue
        nm = f.key.rsplit('::', 1)[-1]
        if nm in ('unpack_outgoing', 'unpack_incoming'):
            g = ctx.graph(f)
            for n in g.events('ret'):
                if n.ctx != 0 or n.id not in g.reach:
                    continue
                for d in some(g, n.d['value']):
                    e1, e2, m = [inner(d[k]) for k in ('0', '1', '2')]
                    ok = (e1[0] == e2[0] == 'fld' and e1[1] == e2[1] and (e1[2], e2[2]) == ('0', '1') and e1[1][0] == 'idx'
                          and field(e1[1][1], '') is not None and tag(e1[1][1][2] if e1[1][1][0] == 'fld' else '') == tag(nm)
                          and cast(strip0(e1[1][2])) == ('arg', 2))
                    ctx.ob('unpacked-parts', fname(f) + ' arcs', ok, 'the arcs returned are not the two parts recorded for the arc and direction asked for', n)
                    t = field(m[1], 'tail$') if m[0] == 'idx' else None
                    ok = t is not None and tag(t[1]) == 'B' and inner(m[2]) == e1
                    ctx.ob('unpacked-parts', fname(f) + ' middle', ok, 'the middle node returned is not the lower end of the first part', n)
    ctx.floor('unpacked-parts', 8)
    # the parts are linked into the path
    k = 0
    for f in whole(ctx):
        if not f.key.startswith(CCH):
            continue
        g = ctx.graph(f, 'flat', opaque=lambda x: '{closure' not in x.key) if ctx.private(f) else ctx.graph(f)
        ev = [n for n in g.events('call') if n.id in g.reach and n.d['key'].rsplit('.', 1)[-1] in ('unpack_outgoing', 'unpack_incoming') and n.d['method']]
        if not ev:
            continue
        k += 1
        relink(ctx, f, g, ev)
    if not k:
        raise Missing('no function replaces shortcuts by their parts')


def strip0(t):
    return t[1] if t[0] == 'fld' and t[2] == '0' else t


def relink(ctx, f, g, ev):
    A = g.A
    calls = set()
    for n in ev:
        e = cast(n.d['args'][1])
        ok = e[0] == 'fld' and e[2] == '1' and e[1][0] == 'idx'
        want = None
        if ok:
            cur, pred = e[1][2], ('fld', e[1], '0')
            for gd in g.guards(n):
                t, pol = gd[:2] if isinstance(gd, tuple) else gd
                lt = less(t, pol)
                if lt:
                    if strict_less(t, pol):
                        want = 'F' if lt == (cur, pred) else 'B' if lt == (pred, cur) else want
                    else:
                        want = 'F' if lt == (cur, pred) else 'B' if lt == (pred, cur) else want
        ctx.ob('unpacked-direction', '%s %s' % (fname(f), n.d['key'].rsplit('.', 1)[-1]), ok and want == tag(n.d['key'].rsplit('.', 1)[-1]),
               'an arc is looked up among the shortcuts of the other direction', n)
    st = [(n, pl, v) for n, pl, v in stores(g) if n.id in g.reach and pl[0] == 'fld' and pl[2] in ('0', '1') and pl[1][0] == 'idx']
    arrs = {cast(n.d['args'][1])[1][1] for n in ev if cast(n.d['args'][1])[0] == 'fld' and cast(n.d['args'][1])[1][0] == 'idx'}

    def part(v):
        """which part of the unpacked arc a value is"""
        v = strip0(v)
        if v[0] == 'fld' and v[2] in ('0', '1', '2') and v[1][0] == 'fld' and v[1][2] == 'Some.0':
            b = v[1][1]
            if all(x[0] == 'call' and tail(x) in ('unpack_outgoing', 'unpack_incoming') for x in A.alternatives(b)):
                return v[2]
        return None

    got = {}
    for n, pl, v in st:
        arr, i, k = pl[1][1], pl[1][2], pl[2]
        if arr not in arrs:
            continue
        pi = part(i)
        pv = part(v)
        if pi is None and (k, pv) in (('0', '2'), ('1', '0')):
            got.setdefault(arr, {})['cur' + k] = n
        elif pi == '2' and (k, pv) == ('1', '1'):
            got.setdefault(arr, {})['mid1'] = n
        elif pi == '2' and k == '0' and v[0] == 'fld' and v[2] == '0' and v[1][0] == 'idx' and v[1][1] == arr:
            got.setdefault(arr, {})['mid0'] = n
        elif i[0] == 'fld' or (v[0] == 'fld' and v[1] == ('idx', v[1][1], i) if v[0] == 'fld' and v[1][0] == 'idx' else False):
            continue    # walks of the other search
        elif pi is None and pv is None:
            continue
        else:
            ctx.ob('unpacked-links', '%s %s' % (fname(f), show(pl, 3)[:60]), False, 'a part of a shortcut is put at the wrong place of the path', n)
    for arr in arrs:
        d = got.get(arr, {})
        for k in ('cur0', 'cur1', 'mid0', 'mid1'):
            ctx.ob('unpacked-links', '%s %s' % (fname(f), k), k in d, 'replacing a shortcut does not link %s' % (
                {'cur0': 'its start to the middle node', 'cur1': 'its start with the first part', 'mid0': 'the middle node to its end', 'mid1': 'the middle node with the second part'}[k]), ev[0])
        if len(d) == 4:
            for k in d:
                p = coupled(g, d['cur0'], [d[k]])
                ctx.ob('unpacked-links', '%s all four links %s' % (fname(f), k), p is None, 'a shortcut is replaced only partly', d['cur0'], p)


def strict_less(t, pol):
    return True


def rule_triangle_search(ctx):
    """lower triangles looked up by weight"""
    f = ctx.fn(r'^algo::customizable_contraction_hierarchy::unpack_arc$')
    g = ctx.graph(f)
    T = Arcs(g)
    names = arg_names(f)
    k = 0
    for n in g.events('ret'):
        if n.ctx != 0 or n.id not in g.reach:
            continue
        for d in some(g, n.d['value']):
            k += 1
            why = None
            low = cast(d['0'])
            parts = []
            for key in ('1', '2'):
                w = d[key]
                e = cast(w[2]) if w[0] == 'idx' else ('const', 0)
                r = T.range_of(e[1][2]) if e[0] == 'elem' and e[1][0] == 'slice' else None
                if not r:
                    why = why or 'a returned weight is not the weight of a lower arc'
                    continue
                inv = r[0][0]
                ci = tag(names.get(inv[1], '')) if inv[0] == 'arg' else None
                cw = tag(names.get(w[1][1], '')) if w[1][0] == 'arg' else None
                if ci is None or ci != cw:
                    why = why or 'the weights of one direction are read with the arcs of the other'
                head = ('elem', ('slice', ('fld', inv, 'head'), e[1][2]), *e[2:])
                parts.append((cw, r[1], w, head))
            if why is None and len(parts) == 2:
                if [(p[0], p[1]) for p in parts] != [('B', ('arg', 1)), ('F', ('arg', 2))]:
                    why = 'the two parts do not lead down from the first and up to the second node'
                else:
                    mc = must(g, n)
                    ws = {parts[0][2], parts[1][2]}
                    eq = [t for t, pol in mc if pol and t[0] == 'bin' and t[1] == 'Eq' and any(sums(x) and set(sums(x)) == ws for x in t[2:])]
                    if not eq:
                        why = 'the parts are returned although their weights need not add up'
                    same = [t for t, pol in mc if pol and ((t[0] == 'is' and 'Equal' in t) or (t[0] == 'bin' and t[1] == 'Eq')) and
                            show(('x', t)).count('.head[') >= 2]
                    if not same:
                        why = why or 'the two arcs need not have the same lower node'
                    if not (low[0] == 'elem' and low[1][0] == 'slice' and field(low[1][1], 'head$') and low[1][2] in (parts[0][3][1][2], parts[1][3][1][2])):
                        why = why or 'the node returned is not the common lower node'
            ctx.ob('triangle-by-weight', fname(f), why is None, why or '', n)
    ctx.floor('triangle-by-weight', 1)


def must(g, n):
    r = []
    for x in g.guards(n):
        r.append((x[0], x[1]))
    return r


def rule_ch_paths(ctx):
    """plain contraction hierarchies: lookup of the arc and order of its parts"""
    k = 0
    for f in whole(ctx):
        if not f.key.startswith('algo::contraction_hierarchy::query') or ctx.private(f) and not f.key.endswith('::path'):
            continue
        g = ctx.graph(f)
        for n in g.events('call'):
            if n.id not in g.reach or not n.d['key'].endswith('.edge_indices'):
                continue
            gr, lo, hi = n.d['args'][:3]
            pops = [c for c in g.events('call') if c.id in g.reach and c.d['key'] == 'Vec.pop']
            k += 1
            ok = False
            res = []
            for (a, b), d in g.assigns.items():
                if gr in d and lo in d and hi in d:
                    ga = field(d[gr], '')
                    mids = [v for p, v in d.items() if p not in (gr, lo, hi) and 'middle' in show(v)]
                    c = tag(ga[1]) if ga else None
                    facts = [less(t, pol) for t, pol in edge_facts(g, a)]
                    res.append(c is not None and (d[lo], d[hi]) in [x for x in facts if x] and len(mids) == 1
                               and mids[0][0] == 'fld' and mids[0][2] == {'F': '0', 'B': '1'}[c] and dirn(d[lo], d[hi]) == c)
            ctx.ob('ch-arc-lookup', fname(f), len(res) == 2 and all(res),
                   'the arc between two neighbours is not looked up at its lower end in the graph and middle nodes of its direction', n)
        pushes = {}
        for n in g.events('call'):
            if n.id in g.reach and n.d['key'] == 'Vec.push' and n.d['args'][1][0] == 'agg' and len(n.d['args'][1][3]) == 2:
                x = (n, n.d['args'][1][3][0][1], n.d['args'][1][3][1][1])
                if popval(x[1]) or popval(x[2]):
                    pushes.setdefault(n.ctx, []).append(x)
        for ps in pushes.values():
            top = [(n, a, b) for n, a, b in ps if popval(a) and not popval(b)]
            rest = [(n, a, b) for n, a, b in ps if popval(b) and not popval(a)]
            ok = len(top) == len(rest) == 1 and top[0][2] == rest[0][1] and popval(top[0][1]) == '0' and popval(rest[0][2]) == '1'
            ctx.ob('ch-parts-in-order', fname(f) + ' parts', ok, 'a shortcut is not replaced by the arc to its middle node and the arc from there', ps[0][0])
            if ok:
                p = coupled(g, top[0][0], [rest[0][0]])
                by = {rest[0][0].id}
                q = walk(g, head_before(g, top[0][0]), {top[0][0].id}, by, set())
                ctx.ob('ch-parts-in-order', fname(f) + ' order', p is None and q is None, 'the second part of a shortcut is emitted before the first', top[0][0], p or q)
    if not k:
        raise Missing('no arc lookup in the contraction hierarchy query')
    ctx.floor('ch-parts-in-order', 2)


def head_before(g, n):
    hs = heads_of(g, n.id)
    return g.byid()[max(hs)] if hs else g.root


def popval(t):
    return t[2] if t[0] == 'fld' and t[2] in ('0', '1') and t[1][0] == 'fld' and t[1][2] == 'Some.0' and t[1][1][0] == 'call' and tail(t[1][1]) == 'pop' else None


def dirn(lo, hi):
    """F if the arc asked for leads from lo to hi, given that lo, hi are the first and second of a pair (arguments or a popped pair)"""
    def pos(t):
        return (0 if t[2] == '0' else 1) if t[0] == 'fld' else t[1] if t[0] == 'arg' else None
    a, b = pos(lo), pos(hi)
    return None if a is None or b is None else 'F' if a < b else 'B'


def edge_facts(g, a):
    """conditions that hold when node a (an id) runs"""
    n = g.byid()[a]
    r = must(g, n)
    for x in g.nodes:
        for m, cc in x.succ:
            if m.id == a:
                r += [(c[0], c[1]) for c in cc]
    return r


def rule_contraction(ctx):
    """shortcuts inserted by node contraction"""
    fs = [f for f in whole(ctx) if f.key.startswith('algo::contraction_hierarchy::<impl') and not f.key.endswith('shortcut_required')]
    k = 0
    from state import prim
    req = lambda x: x.key.endswith('::shortcut_required') or prim(x)
    for f in fs:
        if ctx.private(f) and f.key.rsplit('::', 1)[-1] != 'contract_partially':
            continue
        g = ctx.graph(f, 'req', opaque=req)
        calls = [n for n in g.events('call') if n.id in g.reach and n.d['key'].endswith('.shortcut_required')]
        for c in calls:
            k += 1
            contraction_site(ctx, f, g, c)
    if not k:
        raise Missing('no call of shortcut_required')
    ctx.floor('contraction-shortcut', 4)


def link(t, fieldname):
    """(node contracted, 'incoming'|'outgoing') of the node or weight of one of its links"""
    t = cast(t)
    if t[0] == 'fld' and t[2] == fieldname and t[1][0] == 'fld' and t[1][2] == '0' and t[1][1][0] == 'elem':
        s = strip_iter(t[1][1][1])
        if s[0] == 'fld' and s[2] in ('incoming', 'outgoing'):
            return s[1], s[2]
    return None


def contraction_site(ctx, f, g, c):
    args = c.d['args']
    subj = fname(f)
    a, b, w = args[1], args[2], args[3]
    la, lb = link(a, 'node'), link(b, 'node')
    s = sums(w)
    ok = la and lb and la[0] == lb[0] and (la[1], lb[1]) == ('incoming', 'outgoing')
    ctx.ob('contraction-witness', subj + ' nodes', bool(ok), 'the witness search is not run from an in-neighbour to an out-neighbour of the contracted node', c)
    ok2 = bool(ok) and s is not None and {link(x, 'weight') for x in s} == {la, lb} and {cast(x)[1] for x in s} == {cast(a)[1], cast(b)[1]}
    ctx.ob('contraction-witness', subj + ' length', ok2, 'the witness is not compared with the length of the path over the contracted node', c)
    if not ok2:
        return
    # the links changed
    ins = []
    for n in g.nodes:
        if n.id not in g.reach:
            continue
        if n.kind == 'call' and n.d['key'] == 'Vec.push' and n.d['args'][0][0] == 'fld' and n.d['args'][0][2] in ('incoming', 'outgoing'):
            v = n.d['args'][1]
            lk = v[3][0][1] if v[0] == 'agg' and v[3] else None
            if lk is None or lk[0] != 'agg':
                continue
            d = dict(lk[3])
            ins.append((n, n.d['args'][0], d.get('node'), d.get('weight'), v[3][1][1]))
    for n, pl, v in stores(g):
        if n.id in g.reach and pl[0] == 'fld' and pl[2] == 'weight' and sums(v):
            e = pl[1][1] if pl[1][0] == 'fld' else ('const', 0)
            if e[0] == 'elem' and strip_iter(e[1])[0] == 'fld' and strip_iter(e[1])[2] in ('incoming', 'outgoing'):
                nd = None
                for t, pol in must(g, n):
                    if pol and t[0] == 'bin' and t[1] == 'Eq' and ('fld', pl[1], 'node') in t[2:]:
                        nd = [x for x in t[2:] if x != ('fld', pl[1], 'node')][0]
                mid = [m for m, q, u in stores(g) if q == ('fld', e, '1')]
                ins.append((n, strip_iter(e[1]), nd, v, 'kept' if mid and coupled(g, n, mid) is None else None))
    done = {'incoming': [], 'outgoing': []}
    for n, vec, nd, wt, mid in ins:
        ix = vec[1]
        own = None
        if ix[0] == 'idx':
            i = cast(ix[2])
            own = i[2] if i[0] == 'bin' and i[1] == 'Sub' else i
        side = vec[2]
        want = {'outgoing': (a, b), 'incoming': (b, a)}[side]
        ok = (own, nd) == want and wt == w
        ctx.ob('contraction-shortcut', '%s %s %s' % (subj, side, 'new' if n.kind == 'call' else 'shorter'), ok,
               'the shortcut entered does not lead between the neighbours the witness search was run for, with the length of the path over the contracted node', n)
        if mid is None or (mid != 'kept' and mid[0] == 'const'):
            ctx.ob('contraction-shortcut', '%s %s middle' % (subj, side), False, 'the middle node of the shortcut is not recorded', n)
        done[side].append(n)
    # every pair is either entered on both sides or has a witness
    ev = ('fld', c.d.get('result') or ('x',), '0')
    cut = set()
    for x in g.nodes:
        for m, cc in x.succ:
            for t, pol in cc:
                if not pol and any(y[0] == 'call' and tail(y) == 'shortcut_required' for y in subterms(t)):
                    cut.add((x.id, m.id))
    heads = heads_of(g, c.id)
    for side in done:
        ids = {n.id for n in done[side]}
        tests = {x.id for n in done[side] for x in [n]}
        by = g.byid()
        # searching the links of the own node may find an entry that is no longer than the new one: loop heads over that vector
        p = walk(g, c, set(heads), ids | existing(g, side), cut)
        ctx.ob('contraction-complete', '%s %s' % (subj, side), p is None and bool(ids), 'a pair of neighbours without witness gets no shortcut', c, p)
    for vec in ('incoming', 'outgoing'):
        it = [x for x in subterms(a if vec == 'incoming' else b) if x[0] == 'elem']
        ctx.ob('contraction-complete', '%s all %s' % (subj, vec), bool(it) and strip_iter(it[0][1]) == ('fld', la[0], vec), 'not all neighbours of the contracted node are paired', c)


def existing(g, side):
    """nodes behind a test that an entry for the same node is there already and is not longer"""
    r = set()
    for x in g.nodes:
        for m, cc in x.succ:
            for t, pol in cc:
                lt = less(t, pol)
                if lt and not sums(lt[0]) and sums(lt[1]) is not None and lt[0][0] == 'fld' and lt[0][2] == 'weight' and side in show(lt[0], 12):
                    r.add(m.id)
    return r


# ------------------------------------------------------------------ rebuilding the graph after perfect customization
NODES = ('tail', 'head')     # data that are node ids: chunks of nodes are shared by both directions


class Cells:
    """directions of the arrays a routine fills: by the name of the variable that owns them"""

    def __init__(self, ctx, f, g):
        self.g, self.L = g, Leaves(f, g)
        self.names = {}
        for n in g.nodes:
            if n.fn is None or (n.ctx, 0) in self.names:
                continue
            h = n.fn
            self.names[(n.ctx, 0)] = None
            h.parse()
            for nm, places in h.debug.items():
                for p in places:
                    m = re.match(r'_(\d+)$', str(p))
                    if m:
                        self.names[(n.ctx, int(m.group(1)))] = nm
        self.site = {}
        for n, pl, v in stores(g):
            if pl[0] == 'loc' and v[0] == 'call' and v[3] is not None:
                self.site[v] = self.names.get(pl[1:3])

    def owner(self, t, depth=4):
        """names of the variables an array may belong to"""
        while t[0] in ('slice', 'idx', 'elem', 'iter', 'fld') and not (t[0] == 'fld' and tag(t[2])):
            t = t[1]
        if t[0] == 'loc':
            nm = self.names.get(t[1:3])
            return {nm} if nm else set()
        if t in self.site and self.site[t]:
            return {self.site[t]}
        if t[0] == 'phi' and depth:
            r = set()
            for a in self.g.A.alternatives(t):
                r |= self.owner(a, depth - 1)
            return r
        if t[0] == 'fld':
            return {t[2]}
        return set()

    def colour(self, arr):
        return one({tag(x) for x in self.owner(arr)} - {None})

    def names_in(self, t, skip=()):
        """directions of the data a value is made of (positions inside arrays do not count)"""
        if t[0] in ('idx', 'slice'):
            return self.names_in(t[1], skip)
        if t[0] == 'big':
            return self.names_in(self.L.big.get(t[1], ('const', 0)), skip)
        if t[0] == 'loc':
            return {tag(self.names.get(t[1:3]) or '')} - {None}
        if t[0] == 'agg' and t[1] == 'Range':
            return set()
        own = tag(t[2]) if t[0] == 'fld' else tag(tail(t)) if t[0] == 'call' else tag(self.L.names.get(t[1], '')) if t[0] == 'arg' else None
        if own:
            return set() if tail2(t) in skip else {own}
        r = set()

        def rec(y):
            if isinstance(y, tuple) and y:
                if isinstance(y[0], str):
                    r.update(self.names_in(y, skip))
                else:
                    for z in y:
                        rec(z)
        for y in t[1:]:
            rec(y)
        return r


def tail2(t):
    return (t[2] if t[0] == 'fld' else tail(t) if t[0] == 'call' else '').rsplit('_', 1)[-1]


def rule_rebuild(ctx):
    f = ctx.fn(r'^algo::customizable_contraction_hierarchy::customization::rebuild_customized_perfect$')
    g = ctx.graph(f)
    C = Cells(ctx, f, g)
    for n, pl, v in stores(g):
        if n.id not in g.reach:
            continue
        c = C.colour(pl)
        if not c:
            continue
        own = sorted(C.owner(pl))[0]
        part = pl[2] if pl[0] == 'fld' and pl[2] in ('0', '1') else None
        if part is not None and 'unpack' in own:
            want = {'0': 'B', '1': 'F'}[part]
            w = cast(v)
            src = [x for x in g.A.alternatives(w) if x[0] == 'idx']
            ok = bool(src) and all(C.colour(x[1]) == want and inner2(x[2]) == pl and 'mapping' in ' '.join(C.owner(x[1])) for x in src)
            ctx.ob('renumbered-parts', '%s %s.%s' % (fname(f), own, part), ok, 'a part of a shortcut is not renumbered with the new ids of its own direction', n)
            continue
        t = one(C.names_in(v))
        if t:
            ctx.ob('rebuilt-directions', '%s %s' % (fname(f), own), t == c, 'an array of one direction is filled with data of the other', n)
        x = pl
        while x[0] in ('idx', 'slice', 'fld', 'elem'):
            if x[0] in ('idx', 'slice'):
                r = one(set().union(*[C.names_in(b, NODES) for _, b in x[2][3]]) if x[2][0] == 'agg' else C.names_in(x[2], NODES))
                if r:
                    ctx.ob('rebuilt-directions', '%s range of %s' % (fname(f), own), r == c, 'an array of one direction is divided by the counts of the other', n)
            x = x[1]
    for col in 'FB':
        rows = {}
        for n, pl, v in stores(g):
            if n.id in g.reach and pl[0] == 'idx' and C.colour(pl) == col:
                for o in C.owner(pl):
                    rows.setdefault(o.rsplit('_', 1)[-1], []).append((n, pl, v))
        cols = ('head', 'tail', 'weight', 'unpacking')
        at = {pl[2] for c in cols for _, pl, _ in rows.get(c, ())}
        ok = all(len(rows.get(c, ())) == 1 for c in cols) and len(at) == 1
        ctx.ob('rebuilt-rows', '%s %s position' % (fname(f), col), ok, 'head, tail, weight and parts of an arc of one direction are not written at the same position', rows['head'][0][0] if 'head' in rows else None)
        if not ok:
            continue
        at = at.pop()
        ref = rows['head'][0][0]
        for c in cols:
            n = rows[c][0][0]
            p = coupled(g, ref, [n]) or coupled(g, n, [ref])
            ctx.ob('rebuilt-rows', '%s %s %s' % (fname(f), col, c), p is None, 'an arc is written without its %s' % c, n, p)
        mp = rows.get('mapping', ())
        ok = len(mp) == 1 and any(x == at for x in subterms(mp[0][2])) and coupled(g, ref, [mp[0][0]]) is None
        ctx.ob('rebuilt-rows', '%s %s mapping' % (fname(f), col), ok, 'the new id recorded for an arc is not the position it is written to', ref)
    ctx.floor('renumbered-parts', 4)
    ctx.floor('rebuilt-directions', 16)


def inner2(t):
    t = cast(t)
    while t[0] == 'fld' and t[2] in ('0', 'Some.0') and t[1][0] == 'fld' and t[1][2] in ('0', '1') and t[1][1][0] in ('idx', 'elem'):
        t = cast(t[1])
    return t


def rule_mapping(ctx):
    """which input arcs give a CCH arc its weight"""
    k = 0
    for f in whole(ctx):
        if not f.key.startswith(CCH) or ctx.private(f) and not f.key.endswith('::new_from'):
            continue
        g = flat(ctx, f)
        for n in g.nodes:
            if n.id not in g.reach:
                continue
            for v in n.d.values():
                if not (isinstance(v, tuple) and v and v[0] == 'agg'):
                    continue
                for nm, w in v[3]:
                    if not str(nm).endswith('cch_edge_to_orig_arc'):
                        continue
                    cs = {x for x in subterms(w) if x[0] == 'call' and tail(x) == 'edge_indices'}
                    for c in cs:
                        k += 1
                        a, b = c[2][1], c[2][2]
                        ok = False
                        if all(x[0] == 'idx' or (x[0] == 'call' and tail(x) == 'node') for x in (a, b)):
                            ia, ib = [cast(x[2] if x[0] == 'idx' else x[2][-1]) for x in (a, b)]
                            lo, hi = (ia, ib) if tag(nm) == 'F' else (ib, ia)
                            # the node walked over, and one of its neighbours in the contracted graph
                            ok = hi != lo and any(x == lo for x in subterms(hi)) and not any(x == hi for x in subterms(lo))
                        ctx.ob('input-arcs', '%s %s' % (fname(f), nm), ok, 'a %s CCH arc takes its weight from input arcs of the other direction' % ('forward' if tag(nm) == 'F' else 'backward'), n)
    if not k:
        raise Missing('no mapping of CCH arcs to input arcs')
    ctx.floor('input-arcs', 2)


def rule_witness(ctx):
    """a shortcut is left out only if a shorter path was found"""
    f = ctx.fn(r'^algo::contraction_hierarchy::.*::shortcut_required$')
    g = ctx.graph(f, 'q', opaque=lambda x: x.key.endswith('::distance_with_cap'))
    calls = [n for n in g.events('call') if n.id in g.reach and n.d['key'].endswith('.distance_with_cap')]
    if not calls:
        raise Missing('no witness search')
    for c in calls:
        s, t, cap = c.d['args'][1:4]
        s, t = [cast(x)[2] if cast(x)[0] == 'bin' and cast(x)[1] == 'Sub' else x for x in (s, t)]
        ok = (s, t, cap) == (('arg', 2), ('arg', 3), ('arg', 4))
        ctx.ob('witness-search', fname(f) + ' search', ok, 'the search is not run from the first to the second neighbour', c)
        cut = set()
        for x in g.nodes:
            for m, cc in x.succ:
                for tt, pol in cc:
                    if pol and tt[0] == 'bin' and tt[1] == 'Eq' and set(tt[2:]) == {s, t}:
                        cut.add((x.id, m.id))
                    lt = less(tt, pol)
                    if lt and lt[1] == cap and lt[0][0] == 'fld' and lt[0][2] == 'Some.0' and lt[0][1][0] == 'call' and tail(lt[0][1]) == 'distance_with_cap':
                        cut.add((x.id, m.id))
        bad = set()
        for n in g.events('ret'):
            if n.ctx == 0 and n.id in g.reach:
                v = n.d['value']
                a = dict(v[3]).get('0') if v[0] == 'agg' else None
                if a is None or any(y != TRUE for y in g.A.alternatives(a)):
                    bad.add(n.id)
        p = walk(g, g.root, bad, set(), cut) if bad else None
        ctx.ob('witness-search', fname(f) + ' result', p is None, 'a shortcut can be declared unnecessary although no path as short was found', c, p)
    # the contracted node is out of the graph searched
    fs = [h for h in whole(ctx) if h.key.startswith('algo::contraction_hierarchy::<impl') and h.key.endswith('::contract_partially')]
    for h in fs:
        g = ctx.graph(h, 'req', opaque=lambda x: x.key.endswith('::shortcut_required') or prim_(x))
        for c in [n for n in g.events('call') if n.id in g.reach and n.d['key'].endswith('.shortcut_required')]:
            la = link(c.d['args'][1], 'node')
            if not la:
                continue
            for side, other in (('incoming', 'outgoing'), ('outgoing', 'incoming')):
                rem = []
                for n in g.events('call'):
                    if n.id in g.reach and n.d['key'] in ('Vec.swap_remove', 'Vec.remove', 'Vec.retain'):
                        v = n.d['args'][0]
                        if v[0] == 'fld' and v[2] == other and v[1][0] == 'idx' and any(link(x, 'node') == (la[0], side) for x in subterms(v[1][2])):
                            rem.append(n)
                if not rem:
                    ctx.ob('contracted-removed', '%s %s' % (fname(h), side), False, 'links to the contracted node stay in the graph its neighbours are searched in', c)
                    continue
                # in the loop over the links of the removed node every iteration removes (unless there is no such entry)
                hs = heads_of(g, rem[0].id)
                inner_ = max(hs) if hs else g.root.id
                none = set()
                for x in g.nodes:
                    for m, cc in x.succ:
                        for t, pol in cc:
                            if any(y[0] == 'call' and tail(y) in ('position', 'find') for y in subterms(t)) and ((t[0] == 'is' and 'None' in str(t[2:]) and pol) or (t[0] == 'is' and 'Some' in str(t[2:]) and not pol)):
                                none.add((x.id, m.id))
                by = g.byid()
                start = [m for m, cc in by[inner_].succ if m.id != inner_]
                p = None
                el = [x for n in rem for x in subterms(n.d['args'][0][1][2]) if x[0] == 'elem']
                ent = {(x.id, m.id) for x in g.nodes for m, cc in x.succ for t, pol in cc if t[0] == 'is' and pol and 'Some' in str(t[2:]) and any(strip_iter(y) == ('fld', la[0], side) for y in subterms(t))}
                for x, m in ent:
                    if x in natural(g, inner_):
                        p = p or walk(g, by[m], {inner_}, {n.id for n in rem}, none)
                ctx.ob('contracted-removed', '%s %s' % (fname(h), side), p is None, 'links to the contracted node may stay in the graph its neighbours are searched in', rem[0], p)


def natural(g, h):
    return natural_loops(g).get(h, set()) | {h}


def prim_(x):
    from state import prim
    return prim(x)


def generics(t):
    """head and generic arguments of a type"""
    t = re.sub(r"^&('\w+ )?(mut )?", '', t.strip())
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    args, depth, cur = [], 0, ''
    for ch in t[i + 1:-1]:
        if ch in '<([':
            depth += 1
        elif ch in '>)]' and not cur.endswith('-'):
            depth -= 1
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    args.append(cur.strip())
    return t[:i], [a for a in args if a and not a.startswith("'")]


def reversal(t, bad):
    """parity of the reversals an iterator type contains; records zips of differently ordered iterators"""
    h, a = generics(t)
    h = h.rsplit('::', 1)[-1]
    if h == 'Zip' and len(a) == 2:
        x, y = reversal(a[0], bad), reversal(a[1], bad)
        if x != y:
            bad.append(t)
        return x
    if h == 'Rev' and a:
        return 1 - reversal(a[0], bad)
    if h in ('Map', 'Enumerate', 'Filter', 'Copied', 'Cloned', 'Peekable', 'Take', 'Skip', 'TakeWhile', 'SkipWhile', 'FilterMap', 'Inspect', 'Fuse', 'StepBy') and a:
        return reversal(a[0], bad)
    return 0


def rule_lockstep(ctx):
    """data iterated together is iterated in the same order"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not f.key.startswith((CCH, 'algo::contraction_hierarchy')):
            continue
        f.parse()
        ts = {t for t in f.types.values() if re.search(r'\bZip<', t)}
        if not ts:
            continue
        bad = []
        for t in ts:
            reversal(t, bad)
        ctx.ob('lockstep', fname(f), not bad, 'heads, weights or ids of the same arcs are iterated in opposite orders: %s' % ', '.join(sorted(bad))[:160])
    ctx.floor('lockstep', 10)


RULES = [('triangles', rule_triangles), ('unpack', rule_unpack), ('triangle search', rule_triangle_search), ('ch paths', rule_ch_paths),
         ('contraction', rule_contraction), ('witness', rule_witness), ('rebuild', rule_rebuild), ('mapping', rule_mapping),
         ('records', rule_records), ('stores', rule_stores), ('getters', rule_getters), ('calls', rule_calls), ('lockstep', rule_lockstep)]
