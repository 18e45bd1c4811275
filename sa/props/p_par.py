"""C10 Separator-based parallel customization: every node is customized once, in the order the sequential routine needs, on its own data."""
from framework import *
from rules import *
from core import *
from flow import *
from p_direct import tag, cast, flat, Arcs, Routine, arg_names, natural
import itertools
import re

ID = 'C10'
CRATES = 'engine'
EXPLANATION = (
    'The recursive separator-tree drivers are interpreted over affine node positions: a position that all completed work has reached is carried through every path (loop invariants of the loop over the child cells are inferred and '
    'checked at the back edge), every processed range must start (perfect: end) exactly there, every slice handed to a child cell must be [first_out[start], first_out[end]) of the direction of its slot, relative to the slice of the cell, '
    'and at the return all nodes of the cell are covered; separators are processed outside the scope of the spawned cells. The routines run on cells address the slices they get with arc ids minus the offset of that very slice and record unshifted ids, '
    'change only arcs of the node they process, and iterate bottom up (basic) or top down (perfect). The preconditions (consecutive ids) are validated on every path to a parallel customization and by the validation on every path of the tree; '
    'the tables that distribute the rebuild over threads cover all nodes for any thread count.')
ASSUMPTIONS = ['the nodes of a cell are adjacent to no node of a sibling cell (what a separator decomposition is); established by elimination tree construction, not re-proved here',
               'rayon scopes return only after all spawned tasks are finished']
MOD = 'algo::customizable_contraction_hierarchy::customization::parallelization::'
SEP = 'algo::customizable_contraction_hierarchy::separator_decomposition::'


# ------------------------------------------------------------------ affine forms
class Lin:
    __slots__ = ('c', 'k')

    def __init__(self, c=None, k=0):
        self.c = {a: v for a, v in (c or {}).items() if v}
        self.k = k

    def __add__(self, o):
        d = dict(self.c)
        for a, v in o.c.items():
            d[a] = d.get(a, 0) + v
        return Lin(d, self.k + o.k)

    def scale(self, s):
        return Lin({a: v * s for a, v in self.c.items()}, self.k * s)

    def __sub__(self, o):
        return self + o.scale(-1)

    def key(self):
        return (frozenset(self.c.items()), self.k)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        def nm(a):
            if a[0] == 'D':
                return '%s[%r]' % ({'F': 'forward_first_out', 'B': 'backward_first_out'}[a[1]], a[2])
            return a[1] if a[0] == 'sym' else show(a, 3)
        s = ' + '.join(sorted(('%s' if v == 1 else '-%s' if v == -1 else str(v) + '*%s') % nm(a) for a, v in self.c.items()))
        return (s + (' + %d' % self.k if self.k else '')) or str(self.k)

    def subst(self, sym, val):
        """replace a symbol (also inside table positions)"""
        r = Lin(None, self.k)
        for a, v in self.c.items():
            if a == sym:
                x = val
            elif a[0] == 'D':
                x = D(a[1], a[2].subst(sym, val))
            else:
                x = Lin({a: 1})
            r = r + x.scale(v)
        return r


def sym(n):
    return Lin({('sym', n): 1})


def D(d, pos):
    return Lin({('D', d, pos): 1})


def const(t):
    if t[0] == 'const':
        try:
            return int(t[1])
        except (ValueError, TypeError):
            return None
    return None


class Slice:
    """[start, end) of a root slice, positions relative to the root (end None: up to its end)"""

    def __init__(self, root, start, end=None):
        self.root, self.start, self.end = root, start, end

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.root, self.start, self.end) == (o.root, o.start, o.end)

    def __repr__(self):
        return '%s[%r..%r]' % (show(self.root), self.start, self.end if self.end is not None else '')


def bounds(r):
    """start and end term of a range aggregate"""
    if r[0] != 'agg' or not r[1].startswith('Range'):
        return None
    d = dict(r[3])
    lo, hi = d.get('start', d.get('0')), d.get('end', d.get('1'))
    if r[1] == 'RangeTo':
        lo, hi = None, d.get('end', d.get('0'))
    elif r[1] == 'RangeFrom':
        lo, hi = d.get('start', d.get('0')), None
    elif r[1] != 'Range':
        return None
    return lo, hi


WHOLE = re.compile(r'^(Iter|IterMut|IntoIter|Rev|Enumerate|Copied|Cloned|Peekable|Range)\.next$')


def over_all(n, arr):
    """an iteration step over all elements of an array, directly or by index"""
    if n.kind != 'call' or n.d['method'] != 'next' or not n.d['args'] or n.d['args'][0][0] != 'iter' or not WHOLE.match(str(n.d['key'])):
        return False
    return over_range(n.d['args'][0][1], arr)


def over_range(it, arr):
    if it == arr:
        return True
    b = bounds(it)
    return bool(b) and const(b[0]) == 0 and b[1] is not None and (b[1] == ('len', arr) or b[1][0] == 'call' and tail(b[1]) == 'len' and b[1][2] == (arr,))


def element_of(t, arr):
    """an element an iteration over the whole array stops at"""
    if t[0] == 'elem':
        return t[1] == arr
    return t[0] == 'idx' and t[1] == arr and t[2][0] == 'elem' and bool(bounds(strip_iter(t[2][1])))


class Interp:
    """affine values of variables along the paths of one function"""

    def __init__(self, g, roots):
        self.g, self.roots = g, roots

    def ev(self, t, st):
        if t in st['memo']:
            return st['memo'][t]
        if t in st['env']:
            return st['env'][t]
        if t in self.roots:
            return Slice(t, Lin())
        c = const(t)
        if c is not None:
            return Lin(None, c)
        u = cast(t)
        if u is not t:
            return self.ev(u, st)
        if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
            a, b = self.ev(t[2], st), self.ev(t[3], st)
            if isinstance(a, Lin) and isinstance(b, Lin):
                return a + b if t[1] == 'Add' else a - b
            return None
        if t[0] == 'len':
            a = self.ev(t[1], st) if t[1][0] != 'agg' else None
            if isinstance(a, Slice) and a.end is not None:
                return a.end - a.start
            b = bounds(t[1])
            if b and b[0] and b[1]:
                x, y = self.ev(b[0], st), self.ev(b[1], st)
                return y - x if isinstance(x, Lin) and isinstance(y, Lin) else None
            return Lin({t: 1}) if not isinstance(a, Slice) else None
        if t[0] == 'slice':
            a = self.ev(t[1], st)
            b = bounds(t[2])
            if isinstance(a, Slice) and b:
                lo = self.ev(b[0], st) if b[0] else Lin()
                hi = self.ev(b[1], st) if b[1] else None
                if isinstance(lo, Lin) and (hi is None) == (b[1] is None):
                    return Slice(a.root, a.start + lo, a.start + hi if b[1] else a.end)
            return None
        if t[0] == 'idx':
            d = table(t[1])
            if d:
                p = self.ev(t[2], st)
                return D(d, p) if isinstance(p, Lin) else None
        if t[0] in ('phi', 'loc'):
            return None
        if t[0] in ('bin', 'elem'):
            return Lin({t: 1})
        return Lin({t: 1})


def table(t):
    """direction of a first_out table"""
    nm = tail(t) if t[0] == 'call' else t[2] if t[0] == 'fld' else ''
    return tag(nm) if 'first_out' in nm else None


NN, OFF, LEN, O, CH = sym('cell size'), sym('offset'), sym('separator size'), sym('position'), sym('child size')


class Tree:
    """one recursive driver"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        f.parse()
        self.g = g = ctx.graph(f, 'tree', opaque=lambda x: '::parallelization' not in x.key and '{closure' not in x.key)
        self.sub = f.name
        self.sep = [('arg', i) for i in f.args if 'SeparatorTree' in f.types[i]][0]
        self.off = [('arg', i) for i in f.args if f.types[i] == 'usize'][0]
        self.names = arg_names(f)
        self.slots = {i: tag(self.names.get(i, '')) for i in f.args if re.match(r"(&.*mut \[|\*mut )", f.types[i])}
        self.sliced = any('[' in f.types[i] for i in self.slots)
        self.I = Interp(g, {('arg', i) for i in self.slots} if self.sliced else set())
        self.dir = None
        self.bad = {}
        self.obs = []

    def ob(self, rule, what, ok, detail, n):
        key = (rule, what)
        if key not in self.bad or (self.bad[key][0] and not ok):
            self.bad[key] = (ok, detail, n)

    def children(self):
        return ('fld', self.sep, 'children')

    def run(self):
        g = self.g
        base = {self.off: OFF, ('fld', self.sep, 'num_nodes'): NN}
        st = {'env': base, 'memo': {}, 'P': OFF, 'scope': (), 'ctxs': ()}
        self.loops = {h: body for h, body in natural_loops(g).items()}
        self.recs = [n for n in g.events('call') if n.id in g.reach and n.d['callee'] is not None and self.is_rec(n)]
        self.execs = [n for n in g.events('call') if n.id in g.reach and n.d['method'] == 'exec']
        if not self.recs or not self.execs:
            raise Missing('recursion over the separator tree in %s' % fname(self.f))
        # direction of travel: the first range processed on entry starts (ends) at the offset
        self.up = self.sliced
        self.visit(g.entry if hasattr(g, 'entry') else g.nodes[0], st, 0)
        for (rule, what), (ok, detail, n) in sorted(self.bad.items()):
            self.ctx.ob(rule, '%s %s' % (fname(self.f), what), ok, detail, n)

    def is_rec(self, n):
        return n.d['key'].rsplit('.', 1)[-1].rsplit('::', 1)[-1] == self.f.key.rsplit('::', 1)[-1] and len(n.d['args']) == len(self.f.args)

    def moved(self, p, x):
        return p + x if self.up else p - x

    def visit(self, node, st, depth):
        """follow the paths from node to the returns; loops over the children are summarised"""
        g = self.g
        stack = [(node, st, None)]
        steps = 0
        while stack:
            node, st, prev = stack.pop()
            steps += 1
            if steps > 20000:
                raise Missing('paths of %s' % fname(self.f))
            if node.id in self.loops and st.get('head') != node.id:
                st = self.enter_loop(node, st)
                if st is None:
                    continue
            elif node.id in self.loops and st.get('head') == node.id and prev is not None and prev in self.loops[node.id]:
                self.back_edge(node, st)
                continue
            st = self.step(node, st)
            if node.kind == 'ret' and node.ctx == 0:
                self.finish(node, st)
                continue
            for m, conds in node.succ:
                s2 = self.edge(node, m, conds, st)
                if s2 is not None:
                    stack.append((m, s2, node.id))

    def edge(self, a, b, conds, st):
        asg = self.g.assigns.get((a.id, b.id))
        s2 = st
        if asg:
            vals = {p: self.I.ev(v, st) for p, v in asg.items()}
            s2 = dict(st, env=dict(st['env'], **{}))
            s2['env'].update(vals)
        h = st.get('head')
        if h is not None and a.id in self.loops[h] and b.id not in self.loops[h]:
            full = any(c[0][0] == 'is' and c[1] and c[0][2] == 'None' and c[0][1][0] == 'call' and len(c[0][1][2]) == 1 and c[0][1][2][0][0] == 'iter' and over_range(c[0][1][2][0][1], self.children()) for c in conds)
            # all children are done: the position follows from the size of the tree
            s2 = dict(s2, head=None)
            if full:
                end = self.moved(st['P0'], NN - LEN)
            else:
                end = sym('unknown')
            sub = lambda v: v.subst(('sym', 'position'), end) if isinstance(v, Lin) else Slice(v.root, v.start.subst(('sym', 'position'), end), v.end.subst(('sym', 'position'), end) if v.end is not None else None) if isinstance(v, Slice) else v
            s2['env'] = {k: sub(v) for k, v in s2['env'].items()}
            s2['memo'] = {k: sub(v) for k, v in s2['memo'].items()}
            s2['P'] = sub(s2['P'])
        return s2

    def step(self, n, st):
        g = self.g
        if n.kind == 'arith':
            r = n.d.get('result')
            if r is not None:
                m = dict(st['memo'])
                m.pop(r, None)
                st2 = dict(st, memo=m)
                v = self.I.ev(r, st2)
                if v is not None:
                    m[r] = v
                return st2
        elif n.kind == 'write':
            v = self.I.ev(n.d['value'], st)
            e = dict(st['env'])
            e[('was', n.d['place'])] = e.get(n.d['place'])
            e[n.d['place']] = v
            return dict(st, env=e)
        elif n.kind == 'enter' and n.ctx and st.get('lastcall') in ('scope', 'in_place_scope'):
            return dict(st, scope=st['scope'] + (n.ctx,), lastcall=None)
        elif n.kind == 'exit' and n.ctx in st['scope']:
            return dict(st, scope=tuple(x for x in st['scope'] if x != n.ctx))
        elif n.kind == 'call':
            st = dict(st, lastcall=tail(('call', n.d['key'])))
            if n.d['method'] in ('split_at_mut', 'split_at'):
                a, mid = n.d['args'][:2]
                s, v = self.I.ev(a, st), self.I.ev(mid, st)
                if isinstance(v, Lin):
                    m = dict(st['memo'])
                    lo = ('slice', a, ('agg', 'Range', None, (('start', ('const', 0)), ('end', mid))))
                    hi = ('slice', a, ('agg', 'RangeFrom', None, (('start', mid),)))
                    m[('len', lo)] = v
                    m.pop(('len', hi), None)
                    m[lo] = Slice(s.root, s.start, s.start + v) if isinstance(s, Slice) else None
                    m[hi] = Slice(s.root, s.start + v, s.end) if isinstance(s, Slice) else None
                    return dict(st, memo=m)
            elif n in self.execs:
                return self.exec(n, st)
            elif n in self.recs:
                return self.rec(n, st)
            elif n.d['method'] == 'len' and 'SeparatorNodes' in n.d['key'] and n.d['args'] == (('fld', self.sep, 'nodes'),):
                m = dict(st['memo'])
                m[n.d.get('result', ('call', n.d['key'], n.d['args'], None))] = LEN
                return dict(st, memo=m)
        return st

    def exec(self, n, st):
        b = bounds(n.d['args'][1])
        lo = self.I.ev(b[0], st) if b and b[0] else None
        hi = self.I.ev(b[1], st) if b and b[1] else None
        at, to = (lo, hi) if self.up else (hi, lo)
        self.ob('node-ranges', 'range given to %s' % show(n.d['args'][0]), at is not None and at == st['P'],
                'nodes up to %r are done, but the next range %s at %r' % (st['P'], 'starts' if self.up else 'ends', at), n)
        self.ob('separator-alone', 'separator', not st['scope'], 'a separator is processed while the tasks of its cells may still run', n)
        rest = n.d['args'][2:]
        dirs = {'F': 0, 'B': 0}
        i = 0
        for a in rest:
            v = self.I.ev(a, st)
            if a in [('arg', j) for j in self.slots]:
                continue
            if isinstance(v, Lin) and self.sliced and i < 2:
                d = 'FB'[i]
                i += 1
                self.ob('edge-offsets', 'offset %s' % ('up' if d == 'F' else 'down'), v == D(d, OFF),
                        'the offset passed is %r, the slice passed starts at %r' % (v, D(d, OFF)), n)
        args = [a for a in rest if self.slice_like(a)]
        self.slots_match(n, args, [self.slots[j] for j in sorted(self.slots)], st, None)
        return dict(st, P=to if to is not None else sym('unknown'))

    def slice_like(self, a):
        x = a
        while x[0] in ('slice', 'fld', 'idx'):
            x = x[1]
        return x[0] == 'phi' or x in [('arg', j) for j in self.slots]

    def slots_match(self, n, args, want, st, child):
        """slices (pointers) arrive in the slot of their own direction and cover the child cell"""
        own = [j for j in sorted(self.slots)]
        for pos, (a, w) in enumerate(zip(args, want)):
            what = 'argument %d of %s' % (pos + 1, tail(('call', n.d['key'])))
            if not self.sliced:
                ok = a == ('arg', own[pos]) or a[0] == 'arg' and self.slots.get(a[1]) == w
                self.ob('slices', what, ok, '%s is passed instead of the data of the same direction' % show(a, 3), n)
                continue
            v = self.I.ev(a, st)
            if child is None:
                ok = isinstance(v, Slice) and self.slots.get(v.root[1]) == w and v.start == Lin() and v.end is None
                self.ob('slices', what, ok, 'the routine needs the whole slice of its cell in the slot of the same direction, got %s' % show(a, 3), n)
            else:
                lo, hi = child
                d = w
                ok = isinstance(v, Slice) and self.slots.get(v.root[1]) == w
                self.ob('slices', what + ' direction', ok, 'the slice passed is not of the direction of the slot: %s' % show(a, 3), n)
                ok = isinstance(v, Slice) and v.start == D(d, lo) - D(d, OFF) and v.end == D(d, hi) - D(d, OFF)
                self.ob('slices', what, ok, 'the slice passed is %r, the arcs of the cell are %r to %r' % (v, D(d, lo) - D(d, OFF), D(d, hi) - D(d, OFF)), n)

    def rec(self, n, st):
        a = n.d['args']
        byparam = dict(zip(self.f.args, a))
        sub = byparam[self.sep[1]]
        off = self.I.ev(byparam[self.off[1]], st)
        loop = st.get('head')
        it = ('elem', self.children())
        ok = element_of(sub, self.children()) and loop is not None
        self.ob('children', 'cell', ok, '%s is processed, not a child of the tree at hand' % show(sub, 3), n)
        c = Lin({('fld', sub, 'num_nodes'): 1})
        self.ob('node-ranges', 'range of a child', off is not None and off == st['P'],
                'nodes up to %r are done, but the next cell %s at %r' % (st['P'], 'starts' if self.up else 'ends', off), n)
        to = self.moved(st['P'], c)
        lo, hi = (st['P'], to) if self.up else (to, st['P'])
        self.slots_match(n, [byparam[j] for j in sorted(self.slots)], [self.slots[j] for j in sorted(self.slots)], st, (lo, hi))
        return dict(st, P=to, done=st.get('done', ()) + (n.id,))

    def candidates(self, v0, P0):
        if isinstance(v0, Lin):
            yield lambda p, v0=v0: p + (v0 - P0)
            for d in 'FB':
                yield lambda p, d=d: D(d, p) + (v0 - D(d, P0))
            yield lambda p: v0
        elif isinstance(v0, Slice):
            for d in 'FB':
                yield lambda p, d=d: Slice(v0.root, D(d, p) + (v0.start - D(d, P0)), v0.end)
            yield lambda p: v0

    def enter_loop(self, h, st):
        if not self.is_child_loop(h):
            self.ob('children', 'loop', False, 'loop that is not an iteration over the children', h)
            return None
        key = ('loop', h.id)
        if key in st:
            return None
        body = self.loops[h.id]
        mod = set()
        for (a, b), d in self.g.assigns.items():
            if b == h.id and a in body:
                mod |= set(d)
        for n in self.g.nodes:
            if n.id in body and n.kind == 'write' and n.d['place'][0] == 'loc':
                mod.add(n.d['place'])
        P0 = st['P']
        cands = {v: list(self.candidates(st['env'].get(v), P0)) for v in mod}

        def hyp(pick):
            env = dict(st['env'])
            for v in mod:
                env[v] = pick[v](O) if v in pick else None
            s2 = dict(st, env=env, memo={}, head=h.id, P=O, P0=P0)
            s2[key] = True
            return s2
        # numbers first, then slices (whose positions depend on them); variables without a consistent form stay unknown
        pick = {}
        for kind in (Lin, Slice):
            vs = [v for v in sorted(mod, key=repr) if cands[v] and isinstance(st['env'].get(v), kind)]
            best = None
            for combo in itertools.product(*[cands[v] + [None] for v in vs]) if len(vs) < 5 or kind is Slice and len(vs) < 7 else ():
                p = dict(pick, **{})
                p.update({v: c for v, c in zip(vs, combo) if c})
                if best is not None and len(p) <= len(best):
                    continue
                if not self.try_body(h, hyp(p), [v for v in vs if v in p], p):
                    best = p
                    if len(p) == len(pick) + len(vs):
                        break
            pick = best if best is not None else pick
        return hyp(pick)

    def is_child_loop(self, h):
        return any(n.id in self.loops[h.id] and over_all(n, self.children()) for n in self.g.nodes)

    def try_body(self, h, st, mod, pick):
        """variables whose hypothesis fails on some path through the body"""
        fails = set()
        save, self.bad = self.bad, {}
        stack = [(h, st, None)]
        steps = 0
        body = self.loops[h.id]
        while stack and steps < 5000:
            node, s, prev = stack.pop()
            steps += 1
            if node.id == h.id and prev is not None:
                fails |= {v for v in mod if not self.same(s['env'].get(v), pick[v](s['P']))}
                continue
            s = self.step(node, s)
            for m, conds in node.succ:
                if m.id in body:
                    stack.append((m, self.edge(node, m, conds, s), node.id))
        self.bad = save
        return fails

    def same(self, a, b):
        return a is not None and a == b

    def back_edge(self, h, st):
        it = [n for n in self.g.nodes if n.id in self.loops[h.id] and over_all(n, self.children())]
        c = [a for a in st['P'].c if a[0] == 'fld' and a[2] == 'num_nodes' and element_of(a[1], self.children())]
        ok = len(c) == 1 and st['P'] == self.moved(O, Lin({c[0]: 1}))
        self.ob('children', 'every child', ok, 'a child of the tree is not processed exactly once (position %r)' % st['P'], h)
        rev = [n for n in it if n.d['key'].startswith('Rev.')]
        self.ob('children', 'order of the children', bool(rev) != self.up, 'children are taken in the order opposite to the one the positions are computed for', h)

    def finish(self, n, st):
        want = self.moved(OFF, NN)
        self.ob('covered', 'all nodes of the cell', st['P'] == want, 'the position reached is %r, the cell ends at %r' % (st['P'], want), n)


def trees(ctx):
    res = []
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if f.key.startswith(MOD) and '{closure' not in f.key:
            f.parse()
            if any('SeparatorTree' in f.types[i] for i in f.args) and any(re.match(r"(&.*mut \[|\*mut )", f.types[i]) for i in f.args):
                res.append(f)
    return res


def rule_trees(ctx):
    """recursion over the separator tree"""
    for f in trees(ctx):
        Tree(ctx, f).run()
    ctx.floor('node-ranges', 5)
    ctx.floor('slices', 12)
    ctx.floor('covered', 2)



# ------------------------------------------------------------------ entry and preconditions
def callers(ctx, keys):
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if '{closure' in f.key or f.key in keys:
            continue
        if f.key.startswith('algo::'):
            yield f


def rule_entry(ctx):
    """start of the recursion: the whole tree, all nodes, every slice in its slot"""
    for tf in trees(ctx):
        tf.parse()
        T = Tree(ctx, tf)
        for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
            if not f.key.startswith(MOD) or '{closure' in f.key or f is tf or tf.key.rsplit('::', 1)[0] != f.key.rsplit('::', 1)[0]:
                continue
            g = ctx.graph(f, 'entry', opaque=lambda x: x.key == tf.key)
            calls = [n for n in g.events('call') if n.id in g.reach and T.is_rec(n)]
            if not calls:
                continue
            f.parse()
            for n in calls:
                a = dict(zip(tf.args, n.d['args']))
                off = a[T.off[1]]
                if T.sliced:
                    ok = const(off) == 0
                else:
                    ok = off[0] == 'call' and tail(off) in ('num_cch_nodes', 'num_nodes') or off[0] == 'bin' and off[1] == 'Sub' and const(off[3]) == 1 and off[2][0] == 'len' and table(off[2][1]) is not None
                ctx.ob('entry', '%s node range' % fname(f), ok, 'the recursion over all nodes %s at %s' % ('starts' if T.sliced else 'ends', show(off, 4)), n)
                sep = a[T.sep[1]]
                ctx.ob('entry', '%s tree' % fname(f), sep[0] == 'call' and tail(sep) == 'separators', 'the recursion does not start with the separator tree of the hierarchy', n)
                names = arg_names(f)
                for j, d in sorted(T.slots.items()):
                    v = a[j]
                    while v[0] == 'call' and tail(v) in ('as_mut_ptr', 'as_mut_slice', 'deref_mut') and v[2]:
                        v = v[2][0]
                    ok = v[0] == 'arg' and tag(names.get(v[1], '')) == d
                    ctx.ob('entry', '%s slot %d' % (fname(f), j), ok, '%s is passed as data of the other direction (or not as a whole)' % show(v, 4), n)
    ctx.floor('entry', 8)


def rule_validated(ctx):
    """parallel customizations exist only for validated separator trees"""
    kinds = set()
    for tf in trees(ctx):
        tf.parse()
        m = re.search(r'(\w+)(<|$)', re.sub(r"&('\w+ )?", '', tf.types[tf.args[0]]).split('::')[-1])
        kinds.add(m.group(1))
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not f.key.startswith('algo::') or '{closure' in f.key:
            continue
        f.parse()
        if not any(k in f.ret for k in kinds):
            continue
        g = ctx.graph(f, 'valid', opaque=lambda x: x.key.startswith(SEP))
        for n in g.events('ret'):
            v = n.d['value']
            if n.ctx != 0 or n.id not in g.reach or v[0] != 'agg' or v[1] not in kinds:
                continue
            cch = dict(v[3]).get('cch')
            good = {c.id for c in g.events('call') if c.d['method'] == 'validate_for_parallelization' and c.d['args'] and c.d['args'][0][0] == 'call'
                    and tail(c.d['args'][0]) == 'separators' and c.d['args'][0][2] == (cch,)}
            path = walk(g, g.nodes[0], {n.id}, good, set())
            ctx.ob('validated', fname(f), not path, 'a parallel customization is set up without validating the separator tree it is based on', n)
    ctx.floor('validated', 2)


def rule_validation(ctx):
    """what the validation establishes: consecutive ids of separators and cells, recursively"""
    fs = [f for f in ctx.P.funcs.values() if f.key.startswith(SEP) and f.key.endswith('::validate_for_parallelization')]
    if not fs:
        raise Missing('validate_for_parallelization')
    f = fs[0]
    g = ctx.graph(f, 'validation', opaque=lambda x: '{closure' not in x.key)
    kids = ('fld', ('arg', 1), 'children')
    nodes = ('fld', ('arg', 1), 'nodes')
    nn = ('fld', ('arg', 1), 'num_nodes')
    rets = [n for n in g.events('ret') if n.ctx == 0 and n.id in g.reach]
    consec = ('is', nodes, 'Consecutive')
    cut = edges_with(g, lambda c: c[0] == consec and c[1])
    for n in rets:
        ctx.ob('validation', 'separator ids', not walk(g, g.nodes[0], {n.id}, set(), cut), 'separators with scattered node ids pass the validation', n)
    loops = natural_loops(g)
    I = Interp(g, set())
    heads = []
    for h, body in loops.items():
        nx = [n for n in g.nodes if n.id in body and over_all(n, kids)]
        if nx:
            heads.append((h, body, nx))
    rec = [n for n in g.events('call') if n.id in g.reach and n.d['method'] == f.key.rsplit('::', 1)[-1] and element_of(n.d['args'][0], kids)]
    best = False
    inner = [(n.id, loops[n.id], None) for n in g.nodes if n.kind == 'loop' and n.id in g.reach and n.id in loops and any(
        c.kind == 'call' and c.d['method'] in ('for_each', 'all', 'try_for_each') and re.match(r'(Iter|IntoIter|Rev)\.', str(c.d['key'])) and c.d['args'][0] == ('iter', kids) and c.d['args'][1] == n.d['args'][0]
        for c in g.nodes if c.id in g.reach)]
    for h, body, nx in heads + inner:
        goals = {n.id for n in rec if n.id in body}
        ends_ = {a for (a, b) in back_edges(g, h, body)}
        some_ = edges_with(g, lambda c: c[0][0] == 'is' and c[0][2] == 'Some' and c[1])
        ok = bool(goals) and not any(walk(g, g.byid()[h], {e}, goals, set()) for e in ends_) and all_paths_reach(g, h, rets)
        best = best or ok
    ctx.ob('validation', 'recursion', best, 'the cells below a separator are not all validated', rec[0] if rec else g.nodes[0])
    # position of each child
    ok = False
    why = 'the ids of the cells of a separator are not checked to be consecutive'
    for h, body, nx in heads:
        for (a, b), d in g.assigns.items():
            if b != h or a not in body:
                continue
            for p, v in d.items():
                init = [w for (x, y), dd in g.assigns.items() if y == h and x not in body for q, w in dd.items() if q == p]
                st = {'env': {p: O}, 'memo': {}}
                child = [x for x in subterms(v) if x[0] == 'elem' and x[1] == kids]
                if not child or not init:
                    continue
                c = child[0]
                step = I.ev(v, st)
                if step != O + Lin({('fld', c, 'num_nodes'): 1}):
                    continue
                start = [I.ev(w, {'env': {x: Lin({x: 1}) for x in subterms(w) if x[0] == 'phi'}, 'memo': {}}) for w in init]
                starts = all(isinstance(w, Lin) and w.c.get(nn) == -1 and w.k == 1 and len(w.c) == 2 for w in start)
                eqs = []
                for (x, y), conds in edge_conds(g):
                    for t, pol in conds:
                        if t[0] == 'bin' and (t[1] == 'Eq' and pol or t[1] == 'Ne' and not pol):
                            l, r = I.ev(t[2], st), I.ev(t[3], st)
                            if isinstance(l, Lin) and isinstance(r, Lin):
                                dlt = l - r
                                if dlt.c.get(('sym', 'position')) == 1:
                                    dlt = dlt.scale(-1)
                                high = [q for q in dlt.c if q[0] == 'call' and 'highest_ranked_node' in show(q) or q[0] == 'fld' and 'highest_ranked_node' in show(q)]
                                if dlt.c.get(('sym', 'position')) == -1 and dlt.k == 1 and dlt.c.get(('fld', c, 'num_nodes')) == -1 and len(dlt.c) == 3 and len(high) == 1 and dlt.c[high[0]] == 1 and c in subterms(high[0]):
                                    eqs.append((x, y))
                ends_ = {x for (x, y) in back_edges(g, h, body)}
                if starts and eqs and not any(walk(g, g.byid()[h], {e}, set(), set(eqs)) for e in ends_):
                    ok = True
    ctx.ob('validation', 'cell ids', ok, why, heads[0][2][0] if heads else g.nodes[0])
    # separators with scattered ids are not called consecutive
    for h in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not h.key.startswith(SEP) or '{closure' in h.key or not h.key.endswith('::push'):
            continue
        g2 = ctx.graph(h)
        for n, pl, v in stores(g2):
            if n.id not in g2.reach or pl[0] != 'fld' or pl[2] not in ('start', '0') or 'Consecutive' not in show(pl[1], 9):
                continue
            J = Interp(g2, set())
            e0 = {'env': {}, 'memo': {}}
            old, new = J.ev(pl, e0), J.ev(v, e0)
            node = J.ev(('arg', 2), e0)
            same = any(isinstance(J.ev(t[2], e0), Lin) and isinstance(J.ev(t[3], e0), Lin) and (J.ev(t[2], e0) - J.ev(t[3], e0)) in (node - new, new - node)
                       for t, pol in g2.guards(n) if t[0] == 'bin' and (t[1] == 'Eq' and pol or t[1] == 'Ne' and not pol))
            ctx.ob('validation', 'separator range of push', isinstance(new, Lin) and (new - old) == Lin(None, -1) and (same or new == node),
                   'a range of separator nodes is extended by a node which is not next to it', n)
    # number of nodes of a tree
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not f.key.startswith(SEP) or '{closure' in f.key:
            continue
        f.parse()
        if not f.ret.endswith('SeparatorTree'):
            continue
        g = ctx.graph(f, 'count', opaque=lambda x: '{closure' not in x.key)
        for n in g.events('ret'):
            v = n.d['value']
            if n.ctx != 0 or n.id not in g.reach or v[0] != 'agg' or v[1] != 'SeparatorTree':
                continue
            d = dict(v[3])
            num = Interp(g, set()).ev(d['num_nodes'], {'env': {}, 'memo': {}})
            if d['num_nodes'][0] == 'phi':
                # accumulated in a loop over the children
                ph = d['num_nodes']
                vs = [(e, Interp(g, set()).ev(v[ph], {'env': {ph: O}, 'memo': {}})) for e, v in g.assigns.items() if ph in v]
                for h, body in natural_loops(g).items():
                    if not any(n2.id in body and over_all(n2, d['children']) for n2 in g.nodes):
                        continue
                    back = [v for e, v in vs if e[1] == h and e[0] in body]
                    first = [v for e, v in vs if e[1] == h and e[0] not in body]
                    el = [x for v in back if isinstance(v, Lin) for x in v.c if x[0] == 'fld' and x[2] == 'num_nodes' and element_of(x[1], d['children'])]
                    if len(back) == 1 and len(first) == 1 and el and back[0] == O + Lin({el[0]: 1}) and isinstance(first[0], Lin):
                        num = first[0] + Lin({('call', 'sum', (('fld', el[0][1], 'num_nodes'),), 0): 1})
            sums_ = [a for a in num.c if 'num_nodes' in show(a, 12) and a[0] == 'call' and tail(a) == 'sum'] if isinstance(num, Lin) else []
            lens = [a for a in num.c if a[0] == 'call' and tail(a) == 'len' or a[0] == 'len'] if isinstance(num, Lin) else []
            fresh = d['nodes'][0] == 'call' and tail(d['nodes']) in ('new', 'default')
            ok = d['num_nodes'][0] == 'fld' and d['num_nodes'][2] == 'num_nodes' or isinstance(num, Lin) and num.k == 0 and all(x == 1 for x in num.c.values()) and len(sums_) == 1 and len(lens) == (0 if fresh else 1) and len(num.c) == len(sums_) + len(lens)
            ctx.ob('tree-size', fname(f), ok, 'num_nodes of a separator tree is not the size of the separator plus the sizes of its cells', n)
    ctx.floor('validation', 4)
    ctx.floor('tree-size', 2)


def edge_conds(g):
    for n in g.nodes:
        if n.id in g.reach:
            for m, conds in n.succ:
                if conds:
                    yield (n.id, m.id), conds


def edges_with(g, pred):
    return {e for e, conds in edge_conds(g) if any(pred(c) for c in conds)}


def back_edges(g, h, body):
    return [(n.id, h) for n in g.nodes if n.id in body for m, _ in n.succ if m.id == h]


def all_paths_reach(g, h, rets):
    return not any(walk(g, g.nodes[0], {n.id}, {h}, set()) for n in rets)


# ------------------------------------------------------------------ routines run on cells
def routines(ctx):
    """closures run on the cells: (function, slice or pointer parameters, {parameter: offset parameter})"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if '{closure' not in f.key or not f.key.startswith('algo::'):
            continue
        f.parse()
        ts = [f.types[i] for i in f.args]
        if len(ts) < 4 or not ts[1].endswith('ops::Range<usize>'):
            continue
        data = [i for i in f.args[2:] if re.match(r"(&('\w+ )?mut \[|\*mut )", f.types[i])]
        offs = [i for i in f.args[2:] if f.types[i] == 'usize']
        if len(data) < 2 or len(data) % 2 or f.args[2:] != offs + data or len(offs) > 2:
            continue
        yield f, data, {d: offs[k % len(offs)] for k, d in enumerate(data)} if offs else {}


def coef(t, offs, depth=0):
    """coefficients of the offset parameters in an index, or None if it is not affine in them"""
    t = cast(t)
    if t[0] == 'arg' and t[1] in offs:
        return {t[1]: 1}
    if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
        a, b = coef(t[2], offs, depth), coef(t[3], offs, depth)
        if a is None or b is None:
            return None
        sg = 1 if t[1] == 'Add' else -1
        return {k: v for k, v in ((k, a.get(k, 0) + sg * b.get(k, 0)) for k in set(a) | set(b)) if v}
    if t[0] == 'bin' and t[1] in ('min', 'max'):
        a, b = coef(t[2], offs, depth), coef(t[3], offs, depth)
        return a if a == b else None
    if t[0] == 'elem':
        b = bounds(strip_iter(t[1]))
        if b:
            cs = [coef(x, offs, depth) for x in b if x]
            return cs[0] if cs and all(c == cs[0] for c in cs) else None
        return {}
    if t[0] == 'fld' or t[0] == 'idx' or t[0] == 'call' or t[0] == 'len':
        return {}
    if t[0] in ('const', 'arg', 'clarg'):
        return {}
    return None if any(x[0] == 'arg' and x[1] in offs for x in subterms(t)) else {}


def root(t):
    while t[0] in ('slice', 'idx', 'fld', 'elem') and t[0] != 'elem':
        t = t[1]
    return t


def accesses(g):
    """index and slice expressions of the graph: {term: first node}"""
    seen = {}
    done = set()
    for n in g.nodes:
        if n.id not in g.reach:
            continue
        for v in n.d.values():
            for y in (v if isinstance(v, (list, tuple)) and v and isinstance(v[0], tuple) else [v]):
                if not (isinstance(y, tuple) and y and isinstance(y[0], str)) or y in done:
                    continue
                done.add(y)
                for x in subterms(y):
                    if x[0] in ('idx', 'slice') and x not in seen:
                        seen[x] = n
    return seen


def rule_offsets(ctx):
    """cell-local positions"""
    for f, data, offs in routines(ctx):
        if not offs:
            continue
        g = ctx.graph(f)
        allo = set(offs.values())
        acc = accesses(g)
        # one graph for both directions: both offsets are the same
        twin = not any(table(x[1]) for x in acc if x[0] == 'idx')
        for x, n in acc.items():
            r = root(x)
            if r[0] != 'arg' or r[1] not in data:
                continue
            # position relative to the start of the slice the parameter holds: only the part that starts at its beginning is shifted
            inner = x[1]
            rel = 0
            while inner[0] in ('slice', 'idx', 'fld'):
                if inner[0] == 'slice':
                    b = bounds(inner[2])
                    if b and b[0] and const(b[0]) != 0:
                        rel = 1
                if inner[0] in ('idx', 'fld'):
                    rel = None
                    break
                inner = inner[1]
            if rel is None:
                continue
            want = {} if rel else {offs[r[1]]: -1}
            if x[0] == 'idx':
                parts = [x[2]]
            else:
                b = bounds(x[2])
                parts = [p for p in (b or ()) if p is not None and const(p) != 0]
            for p in parts:
                c = coef(p, allo)
                ctx.ob('cell-offsets', '%s parameter %d' % (fname(f), r[1]), c == want or twin and want and c in [{o: -1} for o in allo],
                       'the slice of a cell starts at the offset passed with it, but is accessed at %s' % show(p, 5), n)
        # values recorded are ids in the whole hierarchy
        for n, pl, v in stores(g):
            if n.id not in g.reach or root(strip0(pl))[0] != 'arg' and pl[0] == 'loc':
                continue
            for w in ([x[1] for x in v[3]] if v[0] == 'agg' else [v]):
                c = coef(w, allo)
                if c and min(c.values()) < 0:
                    ctx.ob('recorded-ids', fname(f), False, 'an arc id relative to the cell is recorded: %s' % show(w, 5), n)
                elif c is not None:
                    ctx.ob('recorded-ids', fname(f), True, '', n)
    ctx.floor('cell-offsets', 30)


def strip0(t):
    while t[0] in ('elem',):
        t = strip_iter(t[1])
    return t


def rule_order(ctx):
    """nodes of a cell: all of them, bottom up (basic) or top down (perfect)"""
    for f, data, offs in routines(ctx):
        g = ctx.graph(f)
        it = ('iter', ('arg', f.args[1]))
        nx = [n for n in g.events('call') if n.id in g.reach and n.d['method'] in ('next', 'for_each') and n.d['args'] and strip_iter(n.d['args'][0]) == ('arg', f.args[1])]
        par = [n for n in g.nodes if n.kind == 'loop' and n.id in g.reach and any(strip_iter(a) == ('arg', f.args[1]) for a in n.d.get('args') or ())]
        for n in nx:
            back = 'Rev' in n.d['key'].split('.')[0]
            ctx.ob('order', fname(f), back == (not offs),
                   'basic customization has to process the nodes bottom up' if offs else 'perfect customization has to process the nodes top down', n)
    ctx.floor('order', 8)


def rule_own_arcs(ctx):
    """shared through raw pointers: only arcs of the node at hand are changed"""
    for f, data, offs in routines(ctx):
        if offs:
            continue
        g = ctx.graph(f)
        T = Arcs(g)
        here = {T.node(x) for n in g.events('call') if n.d['method'] == 'next' and n.d['args'] for x in elems(g, ('arg', f.args[1]))}
        for n, pl, v in stores(g):
            if n.id not in g.reach:
                continue
            a = T.access(pl) or T.access(strip_fld(pl))
            if not a:
                continue
            r = root(a[0])
            if r[0] != 'arg' or r[1] not in data:
                continue
            t = a[1][0]
            ok = t in here
            ctx.ob('own-arcs', '%s parameter %d' % (fname(f), r[1]), ok, 'an arc is changed whose tail %s is not the node being processed' % show(t, 4), n)
    ctx.floor('own-arcs', 10)


def elems(g, cont):
    if not hasattr(g, '_elems'):
        g._elems = {}
    if cont not in g._elems:
        g._elems[cont] = {y for x in accesses(g) for y in subterms(x) if y[0] == 'elem' and strip_iter(y[1]) == cont}
    return g._elems[cont]


def strip_fld(t):
    while t[0] == 'fld':
        t = t[1]
    return t


def rule_threads(ctx):
    """tables of bounds of the parts handed to threads: one more entry than threads, from the first node to the last"""
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if not f.key.startswith('algo::customizable_contraction_hierarchy::') or '{closure' in f.key:
            continue
        if not any(h.key.startswith(f.key + '::{closure') for h in ctx.P.funcs.values()) or 'scope' not in f._text:
            continue
        g = ctx.graph(f)
        acc = accesses(g)
        tabs = {}
        for x, n in acc.items():
            if x[0] != 'idx' or x[1][0] != 'call' or tail(x[1]) not in ('collect', 'from_elem'):
                continue
            i = Interp(g, set()).ev(x[2], {'env': {}, 'memo': {}})
            if not isinstance(i, Lin) or len(i.c) != 1:
                continue
            (e, c), = i.c.items()
            b = bounds(strip_iter(e[1])) if e[0] == 'elem' else None
            if c != 1 or not b or b[1] is None or const(b[0]) != 0:
                continue
            tabs.setdefault(x[1], {}).setdefault(i.k, (b[1], n))
        I = Interp(g, set())
        ev = lambda t: I.ev(t, {'env': {}, 'memo': {}})
        for T, ks in sorted(tabs.items(), key=lambda kv: show(kv[0])):
            if set(ks) != {0, 1}:
                continue
            K, n = ks[1]
            size = ev(T[2][1]) if tail(T) == 'from_elem' else None
            fills = [ev(c.d['args'][2]) for c in g.events('call') if c.id in g.reach and c.d['method'] == 'resize' and c.d['args'][0] == T and ev(c.d['args'][1]) == ev(K) + Lin(None, 1)]
            # while the table is shorter: push
            for c in g.events('call'):
                if c.id in g.reach and c.d['method'] == 'push' and c.d['args'][0] == T and any(
                        pol and t[0] == 'bin' and t[1] == 'Lt' and t[2][0] in ('len', 'call') and T in (t[2][1], (t[2][2] or ((),))[0] if t[2][0] == 'call' else None) and ev(t[3]) == ev(K) + Lin(None, 1)
                        for t, pol in g.guards(c)):
                    fills.append(ev(c.d['args'][1]))
            ok = size == ev(K) + Lin(None, 1) or bool(fills)
            ctx.ob('thread-tables', '%s table used at %s' % (fname(f), tail(T)), ok, 'entries 0 to %s are read, but the table may have fewer' % show(K, 4), n)
            if tail(T) == 'collect':
                first = [m for m, pl, v in stores(g) if pl == ('idx', T, ('const', 0)) and const(v) == 0]
                ctx.ob('thread-tables', '%s first node of %s' % (fname(f), tail(T)), bool(first), 'the nodes before the first part are not processed', n)
                last = [x for x in fills if isinstance(x, Lin) and (x.k == -1 and len(x.c) == 1 and all(q[0] == 'len' and table(q[1]) for q in x.c) or x.k == 0 and len(x.c) == 1 and all(q[0] == 'call' and tail(q).startswith('num_') and 'nodes' in tail(q) for q in x.c))]
                ctx.ob('thread-tables', '%s last node of %s' % (fname(f), tail(T)), bool(last), 'the parts do not end at the last node', n)
    ctx.floor('thread-tables', 3)


RULES = [('trees', rule_trees), ('entry', rule_entry), ('validated', rule_validated), ('validation', rule_validation), ('offsets', rule_offsets), ('order', rule_order), ('own arcs', rule_own_arcs), ('threads', rule_threads)]
