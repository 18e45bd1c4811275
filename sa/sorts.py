"""Id-space inference: which node ids of one event graph live in the external numbering and which are ranks of a node order.

Terms that must live in the same space are unified (same memory cell, index of the same array, phi alternatives, compared values); the accessors of NodeOrder and declared
seeds label classes. A class with both labels is a mix-up; the witness is the chain of constraints that joined the two labels."""
from core import subterms, show
from rules import *

EXT, RANK = 'external id', 'rank'
IDISH_CMP = ('Eq', 'Lt', 'Le', 'Ne')


class Sorts:
    def __init__(self, g, seeds=None, ranks='ranks', order='node_order', pre=()):
        self.g, self.A = g, g.A
        self.par = {}
        self.lab = {}          # root -> {label: why}
        self.ranks, self.order = ranks, order
        self.seeds = seeds or (lambda kind, key: None)
        self.conflicts = []
        self.seen = set()
        self.conv = []         # in-place conversions (node, container)
        self.node = None
        for kind, t, l in pre:
            k = self.V(t) if kind == 'V' else self.I(t) if kind == 'I' else self.cls(t)
            self.label(k, l, 'declared: %s%s' % ({'V': 'elements of ', 'I': 'index of '}.get(kind, ''), show(t)))
        self.run()

    # ---- union find
    def find(self, x):
        while self.par.get(x, x) != x:
            self.par[x] = self.par.get(self.par[x], self.par[x])
            x = self.par[x]
        return x

    def unify(self, a, b, why=None):
        if a is None or b is None:
            return
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        la, lb = self.lab.get(a, {}), self.lab.get(b, {})
        self.par[b] = a
        m = dict(la)
        for k, v in lb.items():
            m.setdefault(k, v)
        self.lab.pop(b, None)
        if m:
            self.lab[a] = m
        if len(m) > 1 and len(la) < 2 and len(lb) < 2:
            self.conflicts.append((self.node, dict(m), why))

    def label(self, a, l, why):
        if a is None:
            return
        a = self.find(a)
        m = self.lab.setdefault(a, {})
        if l not in m:
            m[l] = (why, self.node)
            if len(m) == 2:
                self.conflicts.append((self.node, dict(m), why))

    def of(self, t):
        """labels of a term"""
        c = self.cls(t)
        return set(self.lab.get(self.find(c), {})) if c is not None else set()

    # ---- containers
    def cont(self, c):
        """key of an array-like container"""
        while c[0] in ('iter', 'enum') or (c[0] == 'call' and tail(c) in ('to_vec', 'into_boxed_slice', 'clone', 'copied', 'cloned', 'rev', 'take', 'skip', 'as_slice', 'iter', 'into_iter', 'slice', 'collect', 'from_iter', 'borrowed', 'into', 'to_owned') and c[2]):
            c = c[1] if c[0] in ('iter', 'enum') else c[2][0]
        if c[0] == 'idx':
            return ('idx', self.cont(c[1]))
        if c[0] == 'elem':
            return ('idx', self.cont(c[1]))
        if c[0] == 'fld':
            if c[2] in ('first_out', 'head', 'tail') and c[1][0] != 'call':
                return ('fld', self.key(c[1]), c[2])
            return ('fld', self.key(c[1]), c[2])
        return c

    def key(self, t):
        if t[0] in ('idx', 'elem'):
            return ('idx', self.cont(t[1]))
        if t[0] == 'fld':
            return ('fld', self.key(t[1]), t[2])
        return t

    def I(self, c):
        k = ('I', self.cont(c))
        if k not in self.seen:
            self.seen.add(k)
            s = self.seeds('index', k[1])
            if s:
                self.label(k, s, 'index of ' + show(c))
            if k[1][0] == 'fld' and k[1][2] == 'first_out':
                self.unify(k, ('N', k[1][1]))
        return k

    def V(self, c):
        k = ('V', self.cont(c))
        if k not in self.seen:
            self.seen.add(k)
            s = self.seeds('value', k[1])
            if s:
                self.label(k, s, 'element of ' + show(c))
            if k[1][0] == 'fld' and k[1][2] in ('head', 'tail'):
                self.unify(k, ('N', k[1][1]))
            if k[1][0] == 'mapit':
                self.unify(k, self.cls(k[1][2]))
        return k

    def is_ranks(self, c):
        return c[0] == 'fld' and c[2] == self.ranks or c[0] == 'call' and tail(c) == 'ranks'

    def is_order(self, c):
        return c[0] == 'fld' and c[2] == self.order or c[0] == 'call' and tail(c) == 'order' and 'NodeOrder' in c[1]

    # ---- terms
    def cls(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        k = t[0]
        if k in ('const', 'len', 'un', 'bot', 'fnitem'):
            return None
        if k == 'cast':
            return self.cls(t[-1]) if isinstance(t[-1], tuple) else None
        if k == 'bin':
            return None
        key = ('T', t)
        if key in self.seen:
            return key
        self.seen.add(key)
        if k == 'idx':
            if self.is_ranks(t[1]):
                self.label(self.cls(t[2]), EXT, 'argument of the rank lookup %s' % show(t)[:200])
                self.label(key, RANK, 'result of the rank lookup %s' % show(t)[:200])
                return key
            if self.is_order(t[1]):
                self.label(self.cls(t[2]), RANK, 'argument of the node lookup %s' % show(t)[:200])
                self.label(key, EXT, 'result of the node lookup %s' % show(t)[:200])
                return key
            self.unify(self.I(t[1]), self.cls(t[2]), 'index of ' + show(t[1])[:80])
            self.unify(key, self.V(t[1]))
        elif k == 'elem':
            c = t[1]
            while c[0] == 'iter':
                c = c[1]
            if c[0] == 'enum':
                pass
            elif c[0] == 'mapit':
                self.unify(key, self.cls(c[2]))
            elif c[0] == 'agg' and c[1].startswith('Range'):
                pass
            elif self.is_ranks(c):
                self.label(key, RANK, 'element of the rank array')
            elif self.is_order(c):
                self.label(key, EXT, 'element of the node order')
            else:
                self.unify(key, self.V(c))
        elif k == 'phi':
            for a in self.A.phis.get(t, []):
                self.unify(key, self.cls(a), 'alternatives of a variable')
        elif k == 'loc':
            for a in self.A.celldefs.get(t, []) or []:
                self.unify(key, self.cls(a), 'values of a variable')
        elif k == 'fld':
            b = t[1]
            if b[0] == 'elem':
                c = b[1]
                while c[0] == 'iter':
                    c = c[1]
                if c[0] == 'enum':
                    inner = c[1]
                    while inner[0] == 'iter':
                        inner = inner[1]
                    if t[2] == '0':
                        if self.is_ranks(inner):
                            self.label(key, EXT, 'position in the rank array')
                        elif self.is_order(inner):
                            self.label(key, RANK, 'position in the node order')
                        elif inner[0] not in ('agg', 'mapit', 'call'):
                            self.unify(key, self.I(inner))
                    else:
                        self.unify(key, self.cls(('elem', inner)))
                    return key
            if t[2] in ('0', 'Some.0') and (b[0] == 'agg'):
                for f, x in b[3]:
                    if f == t[2] or f == '0':
                        self.unify(key, self.cls(x))
            if b[0] in ('idx', 'elem'):
                self.unify(key, ('F', self.key(b), t[2]))
            if t[2] in ('Some.0', '0') and b[0] in ('idx', 'elem', 'fld', 'call', 'phi'):
                if t[2] == 'Some.0':
                    self.unify(key, self.cls(b))
                elif b[0] != 'call':
                    pass
            if b[0] == 'phi':
                for a in self.A.phis.get(b, []):
                    self.unify(key, self.cls(self.A.fld(a, t[2])), 'alternatives of a variable')
            s = self.seeds('field', ('fld', self.key(b), t[2]))
            if s:
                self.label(key, s, 'field ' + show(t)[:100])
        elif k == 'call':
            m = tail(t)
            a = t[2]
            if m == 'rank' and 'NodeOrder' in t[1]:
                self.label(self.cls(a[1]), EXT, 'argument of rank')
                self.label(key, RANK, 'result of rank')
            elif m == 'node' and 'NodeOrder' in t[1]:
                self.label(self.cls(a[1]), RANK, 'argument of node')
                self.label(key, EXT, 'result of node')
            elif m in ('value', 'some', 'unwrap', 'clone', 'min', 'max', 'as_index') and a:
                for x in a:
                    self.unify(key, self.cls(x))
            s = self.seeds('call', t)
            if s:
                self.label(key, s, 'result of ' + m)
        elif k == 'agg':
            if len(t[3]) == 1:
                self.unify(key, self.cls(t[3][0][1]))
        return key

    def store(self, pl, v):
        # *x = order.node(*x): an in-place conversion of a container
        if pl[0] in ('elem', 'idx') and v[0] == 'idx' and (self.is_ranks(v[1]) or self.is_order(v[1])) and v[2] == pl:
            self.cls(v)
            self.conv.append((self.node, pl[1], RANK if self.is_ranks(v[1]) else EXT))
            return
        if pl[0] == 'fld' and v[0] == 'idx' and (self.is_ranks(v[1]) or self.is_order(v[1])) and v[2] == pl:
            self.cls(v)
            self.conv.append((self.node, pl, RANK if self.is_ranks(v[1]) else EXT))
            return
        self.flow(pl, v)

    def flow(self, pl, v, why='assignment'):
        if v[0] == 'agg' and len(v[3]) >= 1:
            for f, x in v[3]:
                nm = ('%s.%s' % (v[2], f)) if v[2] else f
                self.flow(self.A.fld(pl, nm), x, why)
            if pl[0] not in ('loc',):
                self.cls(pl)
            return
        if v[0] in ('const', 'bin', 'len', 'un'):
            self.cls(pl)
            return
        self.unify(self.cls(pl), self.cls(v), why + ' to ' + show(pl)[:80])
        if v[0] in ('fld', 'loc', 'call', 'iter', 'mapit', 'idx', 'opq', 'arg'):
            self.contflow(pl, v)

    def contflow(self, a, b):
        """elements of two containers become the same"""
        if b[0] == 'iter':
            return self.contflow(a, b[1])
        if b[0] == 'mapit':
            self.unify(self.V(a), self.cls(b[2]), 'collected into ' + show(a)[:80])
            return
        if b[0] == 'call' and tail(b) in ('collect', 'from_iter', 'to_vec', 'clone', 'into_boxed_slice', 'extend', 'copied', 'cloned', 'rev', 'chain', 'into', 'unwrap') and b[2]:
            for x in b[2]:
                self.contflow(a, x)
            return
        if b[0] in ('fld', 'arg', 'opq', 'loc'):
            if self.is_ranks(b):
                self.label(self.V(a), RANK, 'copy of the rank array')
            elif self.is_order(b):
                self.label(self.V(a), EXT, 'copy of the node order')
            else:
                self.unify(self.V(a), self.V(b))

    def run(self):
        A = self.A
        for n in self.g.nodes:
            if n.id not in self.g.reach:
                continue
            self.node = n
            if n.kind == 'write':
                self.store(n.d['place'], n.d['value'])
            elif n.kind == 'call' and not n.d.get('inl'):
                self.call(n)
            elif n.kind == 'index':
                for t in n.d.values():
                    if isinstance(t, tuple) and t and isinstance(t[0], str) and t[0] in ('idx',):
                        self.cls(t)
                b, i = n.d.get('base') or n.d.get('cont'), n.d.get('index') or n.d.get('idx')
                if isinstance(b, tuple) and isinstance(i, tuple):
                    self.cls(('idx', b, i))
            elif n.kind == 'ret':
                self.visit(n.d['value'])
            for m, c in n.succ:
                for t, pol in c:
                    if t[0] == 'bin' and t[1] in IDISH_CMP:
                        x, y = self.cls(t[2]), self.cls(t[3])
                        if t[2][0] != 'const' and t[3][0] != 'const':
                            self.unify(x, y, 'compared')
                    self.visit(t)

    def visit(self, t):
        for x in subterms(t):
            if x[0] in ('idx', 'elem'):
                self.cls(x)

    def call(self, n):
        m, a = n.d['method'] or '', n.d['args']
        for x in a:
            if isinstance(x, tuple):
                self.visit(x)
        if m in ('push', 'push_back', 'insert') and len(a) == 2:
            self.flow(('elem', a[0]), a[1], 'pushed')
        elif m in ('extend', 'append', 'extend_from_slice', 'copy_from_slice', 'clone_from_slice') and len(a) == 2:
            self.contflow(a[0], a[1])
        elif m in ('rank', 'node') and 'NodeOrder' in n.d['key']:
            self.cls(('call', n.d['key'], a))
        elif m in ('link_iter', 'neighbor_iter', 'degree', 'neighbor_edge_indices', 'neighbor_edge_indices_usize', 'edge_indices', 'neighbor_and_edge_id_iter') and a:
            for x in a[1:]:
                self.unify(('N', self.key(a[0])), self.cls(x), 'node of ' + show(a[0])[:60])
        elif m in ('get', 'get_unchecked', 'get_mut', 'get_unchecked_mut', 'set', 'unset', 'unset_all_around') and len(a) >= 2:
            self.unify(self.I(a[0]), self.cls(a[1]), 'index of ' + show(a[0])[:80])
        elif m == 'swap' and len(a) == 2:
            self.contflow(a[0], a[1])
        s = self.seeds('callargs', n)
        for i, l in (s or {}).items():
            if i < len(a):
                self.label(self.cls(a[i]), l, 'argument of ' + m)
