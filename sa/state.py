"""Per-object state analysis: which fields an operation reads before it has reset them, which it leaves dirty.

Works on the event graph of core.py.  A *field path* is ('arg1','f','g',..): the maximal chain of field selections from
the receiver (or another &mut argument) up to the first element access.
"""
from core import subterms, show
from rules import strip_iter

# container types whose methods are primitives of the state analysis
PRIM_TYPES = ('TimestampedVector', 'ClearlistVector', 'FastClearBitVec', 'IndexdMinHeap', 'BitVec', 'RankSelectMap',
              'FastClearMap', 'InvertableRankSelectMap', 'Heap', 'AtomicDists')
KILL = {'clear', 'reset', 'clear_all', 'init', 'unset_all', 'fill', 'truncate'}
DRAINS = {'drain'}
WRITE_ONLY = {'push', 'insert', 'set', 'push_back', 'push_front', 'extend', 'extend_from_slice', 'entry', 'unset', 'or_insert', 'unset_all_around', 'reserve', 'resize', 'store'}
ACCUMULATE = {'push', 'insert', 'set', 'push_back', 'push_front', 'extend', 'extend_from_slice', 'push_unless_contained'}
PURE_META = {'len', 'capacity', 'iter', 'iter_mut', 'into_iter', 'next', 'is_empty'}


def prim(g):
    """opaque predicate: methods of primitive containers are not inlined"""
    if g.impl is None:
        return False
    t = g.impl[0].split('<')[0].split('::')[-1].strip()
    return t in PRIM_TYPES and not (g.impl[1] or '').startswith('Index')


def mempath(t):
    """term -> (root, fields tuple, rest) or None.  fields = chain of field names from the root before the first element access"""
    chain = []
    x = t
    while True:
        k = x[0]
        if k == 'fld':
            chain.append(('f', x[2]))
            x = x[1]
        elif k in ('idx', 'slice', 'elem', 'iter', 'len'):
            chain.append(('i', None))
            x = x[1]
        elif k == 'arg':
            break
        else:
            return None
    chain.reverse()
    fs = []
    for kind, n in chain:
        if kind == 'i':
            break
        fs.append(n)
    return (x[1], tuple(fs), len(fs) < len(chain))


def paths_in(t, skip_meta=True):
    """all maximal memory paths mentioned in a value term"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if isinstance(x[0], str):
            mp = mempath(x) if x[0] in ('fld', 'idx', 'slice', 'elem', 'arg', 'iter', 'len') else None
            if mp is not None:
                if x[0] == 'len' and skip_meta:
                    pass
                else:
                    out.append(mp)
                # indices inside the path are reads, too
                y = x
                while y[0] in ('fld', 'idx', 'slice', 'elem', 'iter', 'len'):
                    if y[0] in ('idx', 'slice'):
                        go(y[2])
                    y = y[1]
                return
            if x[0] == 'const' or x[0] == 'str':
                return
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out


class StateView:
    """READ / WRITE / KILL events of field paths in one event graph"""

    def __init__(self, g, roots=(1,), kill=(), write_only=(), neutral=()):
        self.g = g
        self.A = g.A
        self.roots = set(roots)
        self.kill_m = KILL | set(kill)
        self.wo = WRITE_ONLY | set(write_only)
        self.neutral = set(neutral)
        self.ev = {}
        for n in g.nodes:
            if n.id in g.reach:
                e = self.classify(n)
                if e:
                    self.ev[n.id] = e

    def expand(self, t, seen=None):
        """mempaths mentioned by value, looking through phis and cells"""
        if seen is None:
            seen = set()
        out = []

        def go(x):
            if not isinstance(x, tuple) or not x:
                return
            if isinstance(x[0], str):
                if x in seen:
                    return
                if x[0] in ('phi', 'loc'):
                    seen.add(x)
                    for m in (self.A.phis.get(x, ()) if x[0] == 'phi' else self.A.celldefs.get(x, ())):
                        go(m)
                    return
                if x[0] in ('const', 'str', 'fnitem'):
                    return
                if x[0] == 'len':
                    return
                base = x
                idxs = []
                fs = []
                while base[0] in ('fld', 'idx', 'slice', 'elem', 'iter'):
                    if base[0] in ('idx', 'slice'):
                        idxs.append(base[2])
                        fs = []
                    elif base[0] == 'fld':
                        fs.append(base[2])
                    else:
                        fs = []
                    base = base[1]
                if base[0] == 'arg':
                    if base[1] in self.roots:
                        seen.add(x)
                        out.append((base[1],) + tuple(reversed(fs)))
                    for i in idxs:
                        go(i)
                    return
                if base is not x and base[0] in ('phi', 'loc'):
                    seen.add(x)
                    for i in idxs:
                        go(i)
                    # re-apply the selections to every possible definition
                    sel = []
                    y = x
                    while y is not base:
                        sel.append(y)
                        y = y[1]
                    sel.reverse()
                    for m in self.defs(base):
                        r = m
                        for s_ in sel:
                            if s_[0] == 'fld':
                                if r[0] == 'agg' and not any(f == s_[2].split('.')[-1] for f, _ in r[3]):
                                    r = None
                                    break
                                r = self.A.fld(r, s_[2])
                            elif r[0] == 'agg':
                                r = None
                                break
                            else:
                                r = (s_[0], r) + tuple(s_[2:])
                            if r == ('bot',):
                                r = None
                                break
                        if r is not None and r != x:
                            go(r)
                    if base[0] == 'loc' and sel and sel[0][0] == 'fld':
                        for v in self.A.cellfields.get((base, sel[0][2]), ()):
                            if len(sel) == 1:
                                go(v)
                    return
            for y in x:
                if isinstance(y, tuple):
                    go(y)
        go(t)
        return out

    def local_place(self, t):
        while t[0] in ('fld', 'idx', 'slice', 'elem'):
            t = t[1]
        return t[0] == 'loc'

    def defs(self, x):
        return list(self.A.phis.get(x, ()) if x[0] == 'phi' else self.A.celldefs.get(x, ()))

    def place(self, t):
        """field path(s) an address term denotes, plus whether it is an element access"""
        res = []

        def go(x, fs, el, d):
            while x[0] in ('fld', 'idx', 'slice', 'elem', 'iter'):
                if x[0] == 'fld':
                    fs = [x[2]] + fs
                else:
                    fs = []
                    el = True
                x = x[1]
            if x[0] == 'arg':
                if x[1] in self.roots:
                    res.append(((x[1],) + tuple(fs), el))
            elif x[0] in ('phi', 'loc') and d < 5:
                for m in self.defs(x):
                    if m[0] == 'agg':
                        r = m
                        for f in fs:
                            r = self.A.fld(r, f) if r[0] == 'agg' and any(q == f.split('.')[-1] for q, _ in r[3]) else None
                            if r is None:
                                break
                        if r is not None and fs:
                            go(r, [], el, d + 1)
                    else:
                        go(m, list(fs), el, d + 1)
            elif x[0] == 'call' and x[1].rsplit('.', 1)[-1] in ('next', 'last_mut', 'first_mut', 'get_mut', 'iter_mut', 'index_mut', 'peek_mut') and x[2]:
                go(x[2][0], [], True, d + 1)
        go(t, [], False, 0)
        return res

    def classify(self, n):
        k = n.kind
        d = n.d
        ev = []

        def rd(t):
            for p in self.expand(t):
                if len(p) > 1:
                    ev.append(('R', p))
        if k == 'branch':
            t = d['term']
            if t[0] == 'disc' and t[1][0] == 'call' and t[1][1].rsplit('.', 1)[-1] == 'next' and t[1][2]:
                if self.refilled(t[1]):
                    return ev
            rd(t)
        elif k in ('arith',):
            rd(d['a'])
            rd(d['b'])
        elif k == 'ret' and n.ctx == 0:
            # a merged value was read where it was computed, not on every path that reaches the return
            if not any(x[0] in ('phi', 'loc') for x in subterms(d['value'])):
                rd(d['value'])
        elif k == 'index':
            rd(d['index'])
            for p, el in self.place(d['base']):
                if len(p) > 1 and not d['mut']:
                    ev.append(('R', p))
        elif k == 'write':
            v = d['value']
            if v[0] == 'agg':
                # storing a reference to a field in an aggregate is no read of its contents
                def comps(x):
                    for _, y in x[3]:
                        if y[0] == 'agg':
                            comps(y)
                        elif not (y[0] in ('fld', 'arg') and mempath(y) and not mempath(y)[2]):
                            rd(y)
                comps(v)
            elif v[0] in ('fld', 'arg') and mempath(v) and not mempath(v)[2] and self.local_place(d['place']):
                pass
            else:
                rd(v)
            pt = d['place']
            x = pt
            while x[0] in ('fld', 'idx', 'slice', 'elem'):
                if x[0] in ('idx', 'slice'):
                    rd(x[2])
                x = x[1]
            pl = self.place(pt)
            for p, el in pl:
                if len(p) > 1:
                    whole = not el and len(pl) == 1
                    fresh = whole and p not in self.expand(d['value']) and not d.get('via', '').startswith('Add')
                    ev.append(('K' if fresh else 'W', p))
        elif k == 'call':
            if d.get('inl'):
                return ev
            m = d['method'] or ''
            args = d['args']
            tys = d['tys']
            for i, a in enumerate(args):
                ty = tys[i] if i < len(tys) else ''
                mutref = ty.startswith('&mut') or "mut " in ty[:14]
                # by-reference receiver
                pls = self.place(a) if ty.startswith('&') else []
                pls = [(p, el) for p, el in pls if len(p) > 1]
                if not ty.startswith('&'):
                    rd(a)
                    continue
                x = a
                for p, el in pls:
                    if i == 0 and m in self.kill_m and (not el or m == 'fill'):
                        ev.append(('K', p))
                    elif i == 0 and m in DRAINS and not el:
                        # Vec::drain(..) / BinaryHeap::drain() empty the container whatever happens to the iterator
                        ev.append(('R', p))
                        if len(args) == 1 or args[1] in (('agg', 'RangeFull', None, ()), ('const', 'RangeFull')):
                            ev.append(('K', p))
                    elif i == 0 and m in self.wo:
                        ev.append(('W', p))
                        if not el and m in ACCUMULATE:
                            ev.append(('A', p))
                    elif m in PURE_META or m in self.neutral:
                        pass
                    elif n.d.get('inl'):
                        pass
                    elif mutref:
                        ev.append(('RW', p))
                    else:
                        ev.append(('R', p))
                for s in subterms(a):
                    if s[0] == 'idx':
                        rd(s[2])
        return ev

    def run(self):
        """-> {path: {'exposed': node or None, 'written': bool, 'read': bool, 'dirty_exit': bool}}"""
        g = self.g
        paths = {}
        for nid, e in self.ev.items():
            for k, p in e:
                paths.setdefault(p, set()).add(k)
        allp = sorted(paths)
        mutated = set()
        for p, ks in paths.items():
            if 'W' in ks or 'RW' in ks or 'K' in ks:
                mutated.add(p)
        # merge: a path is mutated if it or an extension/prefix is
        res = {}
        for p in allp:
            if not any(q[:len(p)] == p or p[:len(q)] == q for q in mutated):
                continue
            res[p] = self.one(p)
        return res

    def touches(self, nid, p, kinds):
        for k, q in self.ev.get(nid, ()):
            if k in kinds and (q[:len(p)] == p or p[:len(q)] == q):
                return True
        return False

    def loop_edges(self, pred):
        """(head, body entry) of the loops whose element term (payload of the next()/pop() that is Some) satisfies pred"""
        res = []
        g = self.g
        for h in g.nodes:
            if h.id not in g.reach:
                continue
            for m, c in h.succ:
                for t, pol in c:
                    if pol and t[0] == 'is' and t[2] == 'Some' and t[1][0] == 'call' and t[1][1].rsplit('.', 1)[-1] in ('next', 'pop', 'pop_front', 'pop_back') and t[1][2]:
                        if pred(self.A.fld(t[1], 'Some.0')):
                            res.append((h, m))
        return res

    def refills(self):
        """containers overwritten with a constant in every iteration of a loop over all their entries: {iterator: containers}"""
        if hasattr(self, '_refill'):
            return self._refill
        res = {}
        g = self.g
        for n in g.nodes:
            if n.id not in g.reach or n.kind != 'write':
                continue
            pt = n.d['place']
            v = n.d['value']
            while pt[0] == 'fld':
                pt = pt[1]
            if pt[0] == 'elem':
                cont, el = pt[1], pt
            elif pt[0] == 'idx' and pt[2][0] == 'elem' and pt[2][1][0] == 'agg' and pt[2][1][1].startswith('Range') and pt[2][1][3][0][1] == ('const', 0):
                cont, el = pt[1], pt[2]
            else:
                continue
            if not (v[0] in ('const', 'fnitem') or (v[0] == 'agg' and all(x[0] == 'const' for _, x in v[3])) or (v[0] == 'call' and not v[2])):
                continue
            if not any(p for p, e in self.place(cont)):
                continue
            if any(strip_iter(x) in (cont, strip_iter(el)) for x in self.A.partial):
                continue
            # every iteration passes this write
            heads = self.loop_edges(lambda x: x == el)
            if heads and all(m.id == n.id or h.id not in g.reachable([m], avoid=lambda x: x.id == n.id) for h, m in heads):
                res.setdefault(el, set()).add(cont)
        self._refill = res
        return res

    def refilled(self, call):
        """containers refilled by the loop driven by this next() call"""
        el = self.A.fld(call, 'Some.0')
        return self.refills().get(el, ())

    def edge_kills(self, conds, p):
        for t, pol in conds:
            if pol and t[0] == 'is' and t[2] == 'None' and t[1][0] == 'call' and t[1][1].rsplit('.', 1)[-1] == 'next' and t[1][2]:
                for cont in self.refilled(t[1]):
                    for q, el in self.place(cont):
                        if p[:len(q)] == q:
                            return True
            x = None
            if pol and t[0] == 'is' and t[2] == 'None' and t[1][0] == 'call' and t[1][1].rsplit('.', 1)[-1] in ('pop', 'pop_front', 'pop_back', 'peek', 'next', 'last', 'first', 'last_mut') and t[1][2]:
                x = t[1][2][0]
            elif pol and t[0] == 'call' and t[1].rsplit('.', 1)[-1] == 'is_empty' and t[2]:
                x = t[2][0]
            if x is not None:
                for q, el in self.place(x):
                    if not el and p[:len(q)] == q:
                        return True
        return False

    def kills(self, nid, p):
        for k, q in self.ev.get(nid, ()):
            if k == 'K' and p[:len(q)] == q:
                return True
        return False

    def one(self, p):
        g = self.g
        # forward: reachable un-killed from entry
        exposed = appended = None
        seen = {g.root.id}
        st = [g.root]
        byid = {n.id: n for n in g.nodes}
        while st:
            n = st.pop()
            if exposed is None and any(k in ('R', 'RW') and q[:len(p)] == p for k, q in self.ev.get(n.id, ())):
                exposed = n
            if appended is None and any(k == 'A' and q == p for k, q in self.ev.get(n.id, ())):
                appended = n
            if self.kills(n.id, p):
                continue
            for m, c in n.succ:
                if c and self.edge_kills(c, p):
                    continue
                if m.id not in seen:
                    seen.add(m.id)
                    st.append(m)
        unkilled_exit = any(e.id in seen for e in g.exits)
        # dirty at exit: from any write, exit reachable without kill
        dirty = None
        starts = [byid[i] for i, e in self.ev.items() if any(k in ('W', 'RW') and q[:len(p)] == p for k, q in e)]
        seen2 = set()
        st = []
        for s in starts:
            for m, c in s.succ:
                if c and self.edge_kills(c, p):
                    continue
                st.append((m, s))
        ex = {e.id for e in g.exits}
        while st:
            n, s = st.pop()
            if n.id in seen2:
                continue
            seen2.add(n.id)
            if n.id in ex:
                dirty = s
                break
            if self.kills(n.id, p):
                continue
            for m, c in n.succ:
                if c and self.edge_kills(c, p):
                    continue
                st.append((m, s))
        return {'exposed': exposed, 'appended': appended, 'unkilled_exit': unkilled_exit, 'dirty_exit': dirty, 'kinds': {k for e in self.ev.values() for k, q in e if q == p}}
