"""C03: the indexed priority queue and the code that uses it."""
from core import subterms, show
from framework import Missing, fname
from rules import *
import state
import extract

ID = 'C03'
CRATES = 'engine'
EXPLANATION = ('Every public method of IndexdMinHeap is turned into an event graph with the private sift and hole helpers inlined. Path queries decide that every move of an element inside the heap array is paired with the matching update '
               'of the position index, that removals invalidate the index before the operation returns, that a key change overwrites exactly the slot the index names and restores the heap order in the right direction, and that the sift '
               'loops compare parent and child of one and the same tree arity and stop only where the order holds. At every use of the queue in the engine a key change is shown to be guarded by a containment test for the same element '
               'and an insertion by its negation.')
ASSUMPTIONS = ['Ord and Indexing implementations of queue elements are lawful', 'std Vec/slice behave as documented']
CAN = Canon(source_consts(extract.REPO))
ME = ('arg', 1)
MOD = 'datastr::index_heap'


def fields(ctx):
    for path, fs in ctx.P.structs.items():
        if path.rsplit('::', 1)[-1] == 'IndexdMinHeap':
            d = [n for n, t in fs if 'Vec<T>' in t.replace(' ', '')]
            q = [n for n, t in fs if 'Vec<usize>' in t.replace(' ', '') or 'Vec<u32>' in t.replace(' ', '')]
            if len(d) == 1 and len(q) == 1:
                return ('fld', ME, d[0]), ('fld', ME, q[0])
    raise Missing('fields of IndexdMinHeap')


def is_inv(v):
    v = CAN(v)
    return v[0] == 'const' and (str(v[1]) in ('INVALID_POSITION', 'MAX', 'usize::MAX') or v[1] == 2 ** 64 - 1)


def idx_of(t):
    """element x of a term as_index(x)"""
    if t[0] == 'call' and tail(t) == 'as_index' and t[2]:
        return t[2][0]
    return None


def qwrites(g, Q):
    """[(node, element, value)] position updates; a swap of two positions counts as two"""
    res = []
    for n, pl, v in stores(g):
        c = strip_idx(pl)
        if c and c[0] == Q and c[1] is not None:
            res.append((n, idx_of(c[1]), v))
    return res


def qswaps(g, Q):
    res = []
    for n in g.events('call'):
        if n.d['method'] in ('swap', 'swap_unchecked') and not n.d.get('inl') and n.d['args'][0] == Q and len(n.d['args']) == 3:
            res.append((n, idx_of(n.d['args'][1]), idx_of(n.d['args'][2])))
    return res


def moves(g, D):
    """[(node, source element term, destination index, kind)]"""
    res = []
    for n in g.events('call', 'write'):
        if n.kind == 'call' and not n.d.get('inl'):
            m, a = n.d['method'], n.d['args']
            if m in ('swap', 'swap_unchecked') and len(a) == 3 and a[0] == D:
                res.append((n, ('idx', D, a[1]), a[2], 'swap'))
                res.append((n, ('idx', D, a[2]), a[1], 'swap'))
            elif m in ('copy_nonoverlapping', 'copy') and len(a) >= 2 and strip_idx(a[1]) and strip_idx(a[1])[0] == D:
                res.append((n, a[0], a[1][2], 'copy'))
            elif m == 'write' and len(a) == 2 and strip_idx(a[0]) and strip_idx(a[0])[0] == D:
                res.append((n, a[1], a[0][2], 'write'))
            elif m == 'push' and a[0] == D:
                res.append((n, a[1], ('len', D), 'push'))
        elif n.kind == 'write':
            c = strip_idx(n.d['place'])
            if c and c[0] == D and c[1] is not None:
                res.append((n, n.d['value'], c[1], 'write'))
    return res


def hole_cells(g):
    """local cells of type Hole: a position field and an element field"""
    res = {}
    for n in g.events('write'):
        v = n.d['value']
        if v[0] == 'agg' and v[1].rsplit('::', 1)[-1] == 'Hole' and n.d['place'][0] == 'loc':
            res[n.d['place']] = (n, dict(v[3]))
    return res


class Sync:
    """Abstract interpretation of one method: which element sits in which slot, and which position the index holds for it.

    Elements are named by the slot they started in (('at', slot)), or by the argument they came from; slots by their index terms. Everything not mentioned in a state is
    in sync. At a loop head in-sync entries are forgotten, the current hole is renamed to its variable and everything that depended on its old value becomes stale."""
    LIMIT = 4000

    def __init__(self, g, D, Q, fresh, drop_ok):
        self.g, self.D, self.Q, self.fresh, self.drop_ok = g, D, Q, fresh, drop_ok
        self.P0 = CAN(('idx', Q, ('call', None, (('arg', 2),))))
        self.holes = hole_cells(g)
        self.hpos = {('fld', c, 'pos') for c in self.holes}
        self.heads = self.loop_heads()

    def loop_heads(self):
        res, col = set(), {}
        st = [(self.g.root, iter(self.g.root.succ))]
        col[self.g.root.id] = 1
        while st:
            n, it = st[-1]
            for m, c in it:
                k = col.get(m.id)
                if k is None:
                    col[m.id] = 1
                    st.append((m, iter(m.succ)))
                    break
                if k == 1:
                    res.add(m.id)
            else:
                col[n.id] = 2
                st.pop()
        return res

    # state: dict with keys ('occ', place) ('pos', token) ('idx', x) ('var', place) ('f', flag)
    def slot(self, st, s):
        s0 = s
        s = CAN(s)
        v = st.get(('var', s))
        if v is not None:
            return v
        if s == ('len', self.D):
            return 'len0' if not st.get(('f', 'lenpost')) else ('past',)
        if s == CAN(('bin', 'Sub', ('len', self.D), ('const', 1))):
            return 'len0' if st.get(('f', 'lenpost')) else 'last'
        if s[0] == 'idx' and s[1] == self.Q and idx_of(s[2]) == ('arg', 2):
            return 'own'
        return s

    def place(self, st, x):
        if x[0] in ('idx',) and x[1] == self.D:
            return ('slot', self.slot(st, x[2]))
        return x

    def tok(self, st, x, raw=False):
        p = self.place(st, x)
        t = st.get(('occ', p))
        if t is None:
            if p[0] == 'slot':
                t = ('at', p[1])
            elif p[0] == 'fld' and p[1][0] == 'call' and tail(p[1]) in ('pop', 'remove', 'swap_remove') and p[1][2][:1] == (self.D,):
                t = ('at', 'last')
            else:
                t = ('val', x)
        if t[0] == 'VAC' and not raw:
            t = t[1]
        return t

    def pos(self, st, t):
        p = st.get(('pos', t))
        if p is None:
            if t[0] == 'at':
                return t[1]
            if t == ('val', ('arg', 2)):
                return 'INV' if self.fresh else 'own'
            return None
        return p

    def put(self, st, p, t):
        old = self.tok(st, p, True) if p[0] != 'slot' else st.get(('occ', p), ('at', p[1]))
        st[('occ', p)] = t
        st[('seen', old[1] if old[0] == 'VAC' else old)] = True
        st[('seen', t)] = True

    def leaves(self, A, place, v):
        if v[0] == 'agg':
            for f, x in v[3]:
                nm = ('%s.%s' % (v[2], f)) if v[2] else f
                yield from self.leaves(A, A.fld(place, nm), x)
        else:
            yield place, v

    def transfer(self, n, st):
        D, Q = self.D, self.Q
        if n.kind == 'call' and not n.d.get('inl'):
            m, a = n.d['method'] or '', n.d['args']
            if m == 'as_index' and len(a) == 1:
                st[('idx', a[0])] = self.tok(st, a[0])
            elif m == 'len' and a and a[0] == D:
                st[('f', 'lenpost')] = bool(st.get(('f', 'pushed')))
            elif m in ('swap', 'swap_unchecked') and len(a) == 3 and a[0] == D:
                p, q = ('slot', self.slot(st, a[1])), ('slot', self.slot(st, a[2]))
                tp, tq = self.tok(st, ('idx', D, a[1])), self.tok(st, ('idx', D, a[2]))
                st[('occ', p)], st[('occ', q)] = tq, tp
                st[('seen', tp)] = st[('seen', tq)] = True
            elif m in ('swap', 'swap_unchecked') and len(a) == 3 and a[0] == Q:
                e, f = self.indexed(st, a[1]), self.indexed(st, a[2])
                if e is None or f is None or e == f:
                    st[('bad', 'positions of unknown elements are exchanged', n.id)] = True
                else:
                    pe, pf = self.pos(st, e), self.pos(st, f)
                    st[('pos', e)], st[('pos', f)] = pf, pe
            elif m == 'swap' and len(a) == 2 and 'mem' in n.d['key']:
                if any(x[0] == 'idx' and x[1] == D for x in a) or any(('occ', x) in st for x in a):
                    p, q = self.place(st, a[0]), self.place(st, a[1])
                    tp, tq = self.tok(st, a[0]), self.tok(st, a[1])
                    st[('occ', p)], st[('occ', q)] = tq, tp
                    st[('seen', tp)] = st[('seen', tq)] = True
            elif m == 'push' and a[0] == D:
                st[('occ', ('slot', 'len0'))] = t = self.tok(st, a[1])
                st[('seen', t)] = True
                st[('f', 'pushed')] = True
            elif m in ('pop', 'remove', 'swap_remove') and a[0] == D:
                st[('seen', ('at', 'last'))] = True
            elif m == 'read' and len(a) == 1 and a[0][0] == 'idx' and a[0][1] == D:
                t = self.tok(st, a[0])
                st[('occ', self.place(st, a[0]))] = ('VAC', t)
            elif m in ('copy_nonoverlapping', 'copy') and len(a) >= 2 and any(x[0] == 'idx' and x[1] == D for x in a[:2]):
                t = self.tok(st, a[0])
                p = self.place(st, a[0])
                self.put(st, self.place(st, a[1]), t)
                if p[0] == 'slot':
                    st[('occ', p)] = ('VAC', t)
            elif m == 'write' and len(a) == 2 and a[0][0] == 'idx' and a[0][1] == D:
                self.put(st, self.place(st, a[0]), self.tok(st, a[1]))
        elif n.kind == 'write':
            via = n.d.get('via') or ''
            if via.endswith('::swap'):
                return
            pl, v = n.d['place'], n.d['value']
            if pl in self.hpos:
                st[('var', pl)] = self.slot(st, v)
                return
            c = strip_idx(pl)
            if c and c[0] == Q:
                if c[1] is None:
                    return
                e = self.indexed(st, c[1])
                if e is None:
                    st[('bad', 'a position is recorded for an unknown element', n.id)] = True
                else:
                    st[('pos', e)] = 'INV' if is_inv(v) else self.slot(st, v)
                    st[('seen', e)] = True
                return
            if c and c[0] == D:
                if c[1] is not None:
                    self.put(st, self.place(st, pl), self.tok(st, v))
                return
            for lp, x in self.leaves(self.g.A, pl, v):
                if lp in self.hpos:
                    st[('var', lp)] = self.slot(st, x)
                elif (x[0] == 'idx' and x[1] == D) or ('occ', x) in st or x == ('arg', 2):
                    st[('occ', lp)] = self.tok(st, x)

    def indexed(self, st, i):
        x = idx_of(i)
        if x is None:
            return None
        t = st.get(('idx', x)) or self.tok(st, x)
        return t

    def edge(self, c, st):
        for t, pol in c:
            if t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) == 'pop' and t[1][2][:1] == (self.D,) and (t[2] == 'None') == pol:
                st.pop(('seen', ('at', 'last')), None)
            if pol and CAN(t) == CAN(('bin', 'Eq', ('len', self.D), ('const', 0))) or not pol and t[0] == 'bin' and t[1] == 'Lt' and t[2] == ('const', 0) and t[3] == ('len', self.D):
                st[('f', 'empty')] = True
            if t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) in ('first', 'peek', 'first_mut', 'get', 'get_mut', 'last') and t[1][2][:1] == (self.D,) and (t[2] == 'None') == pol:
                st[('f', 'empty')] = True

    def normal(self, st):
        """state at a loop head"""
        r = {k: v for k, v in st.items() if k[0] in ('f', 'bad')}
        occ = {k[1]: v for k, v in st.items() if k[0] == 'occ'}
        keep = {}
        for p, t in occ.items():
            if p[0] == 'slot' and t[0] != 'VAC' and self.pos(st, t) == p[1] != ('stale',):
                continue
            keep[p] = t
        var = {k[1]: v for k, v in st.items() if k[0] == 'var'}
        out = self.out(st)
        toks = {t[1] if t[0] == 'VAC' else t for t in keep.values()} | set(out)
        ren = {v: h for h, v in var.items()}

        def rs(s):
            if s in ren:
                return ren[s]
            if s in self.hpos and s not in var:
                return s
            if s in var or not stable(s):
                return ('stale',)
            return s

        def rt(t):
            return ('old', t[1]) if t[0] == 'at' else t
        for p, t in keep.items():
            q = ('slot', rs(p[1])) if p[0] == 'slot' else p
            r[('occ', q)] = ('VAC', ('gone',)) if t[0] == 'VAC' else rt(t)
        for t in toks:
            if t[0] in ('at', 'val', 'old'):
                pp = self.pos(st, t)
                r[('pos', rt(t))] = pp if pp in ('INV', None) else rs(pp)
        for t in out:
            r[('seen', rt(t))] = True
        return r

    def out(self, st):
        """elements seen that are in no slot"""
        ins = {v for k, v in st.items() if k[0] == 'occ' and k[1][0] == 'slot'}
        held = {v for k, v in st.items() if k[0] == 'occ' and self.is_elt(k[1])}
        res = []
        for k in st:
            if k[0] != 'seen':
                continue
            t = k[1]
            if t[0] not in ('at', 'old') and t != ('val', ('arg', 2)) or t in ins or t in held:
                continue
            if t[0] == 'at' and ('occ', ('slot', t[1])) not in st and t[1] != 'last':
                continue
            if t[0] == 'at' and t[1] == 'own' and ('val', ('arg', 2)) in ins | held:
                continue
            if t == ('val', ('arg', 2)) and self.fresh and self.pos(st, t) == 'INV':
                continue
            res.append(t)
        return res

    def is_elt(self, p):
        return any(mentions(p, c) for c in self.holes) if p[0] != 'slot' else False

    def finish(self, st):
        """problems of a final state"""
        res = [k[1] for k in st if k[0] == 'bad']
        st = dict(st)
        for cell in self.holes:
            h = ('fld', cell, 'pos')
            es = [(k[1], v) for k, v in st.items() if k[0] == 'occ' and k[1][0] != 'slot' and mentions(k[1], cell)]
            if es and self.drop_ok:
                # dropping the hole puts its element back
                self.put(st, ('slot', st.get(('var', h), h)), es[0][1])
        for k, t in st.items():
            if k[0] == 'occ' and k[1][0] == 'slot':
                if t[0] == 'VAC':
                    res.append('slot %s is left without element' % sname(k[1][1]))
                elif self.pos(st, t) != k[1][1] or k[1][1] == ('stale',):
                    res.append('the element now in slot %s is recorded at position %s' % (sname(k[1][1]), sname(self.pos(st, t))))
        outs = self.out(st)
        for t in outs:
            if self.pos(st, t) != 'INV':
                res.append('an element left the heap while its position stays valid')
        self.outs = [(t, bool(st.get(('f', 'empty')))) for t in outs]
        return res

    def run(self):
        seen = {}
        st0 = {}
        work = [(self.g.root, st0, None)]
        exits_ = {e.id for e in self.g.exits}
        results = []
        steps = 0
        while work:
            n, st, tr = work.pop()
            if n.id in self.heads:
                st = self.normal(st)
            key = (n.id, frozenset(st.items()))
            if key in seen:
                continue
            seen[key] = True
            steps += 1
            if steps > 200000 or len(seen) > 60000:
                raise Missing('too many index states in %s' % fname(self.g.f) if hasattr(self.g, 'f') else 'too many index states')
            st = dict(st)
            self.transfer(n, st)
            tr = (n, tr)
            if n.id in exits_:
                bad = self.finish(st)
                results.append((bad, self.outs, tr))
                continue
            for m, c in n.succ:
                s2 = st
                if c:
                    s2 = dict(st)
                    self.edge(c, s2)
                work.append((m, s2, tr))
        return results


def stable(s):
    return s in ('len0', 'last', 'own') or (isinstance(s, tuple) and s and s[0] == 'const')


def sname(s):
    if s is None:
        return 'unknown'
    if isinstance(s, str):
        return {'len0': 'len', 'own': 'the one the index names', 'INV': 'invalid'}.get(s, s)
    return s[0] if s[0] in ('stale', 'past') else show(s)


def unroll(tr):
    r = []
    while tr is not None:
        r.append(tr[0])
        tr = tr[1]
    return r[::-1]


def hole_drop(ctx, D):
    """dropping a Hole writes its element into the slot it stands for, on every path"""
    fs = [f for f in ctx.P.funcs.values() if f.impl is not None and f.impl[0].split('<')[0].split('::')[-1].strip() == 'Hole' and (f.impl[1] or '').split('::')[-1] == 'Drop' and f.key.split('::<impl')[0] == MOD and '{closure' not in f.key]
    if not fs:
        return False
    g = ctx.graph(fs[0])
    ws = []
    for n, pl, v in stores(g):
        if pl[0] == 'idx' and pl[1] == ('fld', ME, 'data') and pl[2] == ('fld', ME, 'pos') and mentions(v, ('fld', ME, 'elt')):
            ws.append(n)
    p = uncut(g, g.root, exits(g), Cut(nodes=ws))
    ctx.ob('hole-drop', fname(fs[0]), p is None, 'dropping the hole does not write its element back into the slot it stands for', path=p)
    return True


def r_index(ctx):
    D, Q = fields(ctx)
    fs = heap_methods(ctx)
    nm = 0
    drop_ok = hole_drop(ctx, D)
    for name, f in fs:
        if name == 'new':
            continue
        g = ctx.graph(f)
        subj = fname(f)
        qw, mv = qwrites(g, Q), moves(g, D)
        nm += len(mv)
        # bulk removals
        gone = [n for n in g.events('call') if not n.d.get('inl') and n.d['args'] and n.d['args'][0] == D and n.d['method'] in ('clear', 'drain', 'truncate')]
        gone += [n for n, pl, v in stores(g) if pl == D]
        if gone:
            ns, es = inval_loop(g, D, Q, qw)
            for n in gone:
                p = uncut(g, g.root, lambda x: x is n, Cut(nodes=ns, edges=es, conds=lambda t, pol: pol and CAN(t) == CAN(('bin', 'Eq', ('len', D), ('const', 0)))))
                ctx.ob('remove-index', '%s:%s' % (subj, n.d.get('method', 'assign')), p is None, 'elements leave the heap while their positions stay valid', n, p)
            continue
        pops = [n for n in g.events('call') if not n.d.get('inl') and n.d['args'] and n.d['args'][0] == D and n.d['method'] in ('pop', 'swap_remove', 'remove')]
        if not mv and not pops and not qw and not qswaps(g, Q):
            continue
        fresh = name.startswith('push')
        res = Sync(g, D, Q, fresh, drop_ok).run()
        bad = [(b, tr) for b, o, tr in res if b]
        msg = '; '.join(sorted({x for b, tr in bad for x in b})[:3])
        last = unroll(bad[0][1]) if bad else None
        ctx.ob('index-sync', subj, not bad, msg, last[-1] if last else None, last)
        ctx.ob('index-sync', subj + ':returns', bool(res), 'no returning path')
        # exactly the root leaves in pop
        if pops:
            okp = True
            for b, outs, tr in res:
                for t, empty in outs:
                    if not (t[1] == ('const', 0) or (t[1] == 'last' and empty)) or len(outs) != 1:
                        okp = False
                        last = unroll(tr)
            ctx.ob('removes-root', subj, okp, 'the element removed is not the root of the heap', None if okp else last[-1], None if okp else last)
        elif [1 for b, outs, tr in res if outs]:
            tr = [tr for b, outs, tr in res if outs][0]
            ctx.ob('removes-root', subj, False, 'an element is lost', unroll(tr)[-1], unroll(tr))
    ctx.ob('count-floor', 'moves>=8', nm >= 8, 'only %d element moves found' % nm)
    ctx.floor('index-sync', 8)
    ctx.floor('removes-root', 1)
    ctx.floor('remove-index', 2)


def mentions_elem(src, e):
    return src == e or mentions(src, e)


def exits_nodes(g):
    return list(g.exits)


def uncut_next(g, n, goal, cut):
    """a non-empty path n ->+ goal avoiding the cut"""
    return g.path(n, goal, avoid=cut.node, edge_ok=cut.edge_ok) if not any(goal(m) and not cut.node(m) for m, c in n.succ) else [n]


def after(g, a, b):
    """b can be executed after a, and a not after b unless in a loop"""
    return b.id in g.reachable([m for m, c in a.succ])


def inval_loop(g, D, Q, qw):
    nodes, edges = [], []
    if any(strip_iter(x) == D for x in g.A.partial):
        return nodes, edges
    ns = [n for n, e, v in qw if is_inv(v) and e is not None and (e == ('elem', D) or (e[0] == 'elem' and e[1] == D) or (e[0] == 'idx' and e[1] == D and e[2][0] == 'elem' and full_range(e[2][1], D)))]
    els = {(e if e[0] == 'elem' else e[2]) for n, e, v in qw if n in ns}
    for el in els:
        cut = Cut(nodes=ns)
        for h, m, out in loop_heads(g, lambda x, c: x == el):
            if uncut(g, m, lambda x: x is h, cut) is None and uncut(g, m, exits(g), Cut(nodes=ns + [h])) is None:
                edges += out
    # positions.fill(INVALID)
    n2, e2 = refill_cut(g, Q, is_inv)
    return nodes + n2, edges + e2


def heap_methods(ctx):
    res = []
    for f in ctx.P.funcs.values():
        if f.impl is None or '{closure' in f.key:
            continue
        t = f.impl[0].split('<')[0].split('::')[-1].strip()
        if t == 'IndexdMinHeap' and not f.impl[1] and not ctx.private(f):
            res.append((f.key.rsplit('::', 1)[-1], f))
    global MOD
    if res:
        MOD = res[0][1].key.split('::<impl')[0]
    if len(res) < 10:
        raise Missing('public methods of IndexdMinHeap')
    return sorted(res, key=lambda x: x[0])


# ------------------------------------------------------------------ heap order
def lt(t, pol):
    """(a, b, strict) if the condition establishes a < b (strict) or a <= b"""
    if t[0] == 'bin' and t[1] == 'Lt':
        return (t[2], t[3], True) if pol else (t[3], t[2], False)
    if t[0] == 'bin' and t[1] == 'Le':
        return (t[2], t[3], False) if pol else (t[3], t[2], True)
    return None


def r_order(ctx):
    D, Q = fields(ctx)
    ms = dict(heap_methods(ctx))
    arity = None
    # upwards
    for name in ('push', 'decrease_key'):
        g = ctx.graph(ms[name])
        subj = fname(ms[name])
        ups = [(n, src, dst) for n, src, dst, k in moves(g, D) if k in ('swap', 'copy')]

        def parent_of(i):
            return CAN(('bin', 'Div', ('bin', 'Sub', i, ('const', 1)), ('const', 'TREE_ARITY')))

        def is_pair(a, b):
            """a = D[parent(i)], b = D[i] for some i"""
            if a[0] == 'idx' and a[1] == D and b[0] == 'idx' and b[1] == D:
                return CAN(a[2]) == parent_of(b[2])
            if a[0] == 'idx' and a[1] == D and b[0] == 'fld':      # hole element
                pos = hole_pos(b)
                return pos is not None and CAN(a[2]) == parent_of(pos)
            return False

        def stop(t, pol):
            r = lt(t, pol)
            if r and is_pair(r[0], r[1]):
                return True
            if r and not r[2] and r[1] == ('const', 0):     # i <= 0
                return True
            c = CAN(t)
            return pol and c[0] == 'bin' and c[1] == 'Eq' and ('const', 0) in (c[2], c[3]) and (mentions(c, ('const', 0)))
        starts = [n for n, src, dst, k in moves(g, D) if k in ('push', 'write') and src == ('arg', 2)]
        if not starts:
            raise Missing('%s does not store its element' % name)
        for s in starts:
            p = uncut(g, s, exits(g), Cut(conds=stop))
            ctx.ob('sift-up-stop', subj, p is None, 'the heap order above a changed element is left unrestored on this path', s, p)
        p = uncut(g, g.root, exits(g), Cut(nodes=starts))
        ctx.ob('stores-element', subj, p is None, 'can return without storing the element', path=p)
        cont = lambda t, pol: bool(lt(t, pol)) and is_pair(lt(t, pol)[1], lt(t, pol)[0])
        for n, src, dst in ups:
            p = uncut(g, g.root, lambda x: x is n, Cut(conds=cont))
            ctx.ob('sift-up-move', subj, p is None, 'an element is moved up although it was not found to be smaller than its parent', n, p)
            # restart of the comparison after the move
            if uncut_next(g, n, exits(g), Cut(conds=stop)) is not None:
                ctx.ob('sift-up-stop', subj + ':again', False, 'sifting up stops after one move', n)
        ctx.ob('sift-up-move', subj + ':exists', bool(ups), 'no upward move found')
        # the position starts at the changed slot and walks to the parent
        init = inits(g, D, Q, starts)
        for n, i, j in pairs(ups, D):
            for c, q in ((i, j), (j, i)):
                if CAN(q) == parent_of(c):
                    bad = [v for v in walk(g, c) if CAN(v) not in init and CAN(v) != parent_of(c)]
                    ctx.ob('sift-up-position', subj, not bad, 'sifting up continues at slot %s, which is neither the changed slot nor the parent' % ', '.join(map(show, bad)), n)
    # downwards
    for name in ('pop', 'increase_key'):
        g = ctx.graph(ms[name])
        subj = fname(ms[name])

        def children(r, pos):
            lo = CAN(('bin', 'Add', ('bin', 'Mul', ('const', 'TREE_ARITY'), pos), ('const', 1)))
            his = [CAN(('bin', 'min', ('bin', 'Add', ('bin', 'Add', ('bin', 'Mul', ('const', 'TREE_ARITY'), pos), ('const', 'TREE_ARITY')), ('const', 1)), ('len', D))),
                   CAN(('bin', 'min', ('bin', 'Add', ('bin', 'Add', ('bin', 'Mul', ('const', 'TREE_ARITY'), pos), ('const', 1)), ('const', 'TREE_ARITY')), ('len', D)))]
            r = CAN(r)
            while r[0] == 'iter':
                r = r[1]
            if r[0] == 'agg' and r[1].startswith('Range') and len(r[3]) == 2:
                return CAN(r[3][0][1]) == lo and (CAN(r[3][1][1]) in his or norm_hi(r[3][1][1], D) == norm_hi(his[0], D))
            return False

        def min_child(e, cur):
            """e = D[c] with c the minimum over the children of the position cur"""
            if e[0] == 'idx' and e[1] == D:
                c = e[2]
                return children_elem(c)
            return False

        def children_elem(c):
            if c[0] == 'elem':
                for pos in positions(c[1]):
                    if children(c[1], pos):
                        return True
            return False

        def positions(r):
            return {x[3] if x[2] == ('const', 4) or x[2] == ('const', 'TREE_ARITY') else x[2] for x in subterms(r) if x[0] == 'bin' and x[1] in ('Mul',)}

        def stop(t, pol):
            r = lt(t, pol)
            if r and min_child(r[1], None):         # cur <= D[child]
                return True
            if t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) in ('min_by_key', 'min_by', 'min', 'next', 'first') and (t[2] == 'None') == pol:
                return any(children_elem(('elem', x)) for x in t[1][2][:1]) or any(children_elem(('elem', x)) for x in subterms(t[1]) if x[0] == 'agg' and x[1].startswith('Range'))
            if r and not r[2] and False:
                return True
            return False
        if name == 'pop':
            starts = [n for n, src, dst, k in moves(g, D) if k == 'write']
        else:
            starts = [n for n, src, dst, k in moves(g, D) if k == 'write' and src == ('arg', 2)]
            p = uncut(g, g.root, exits(g), Cut(nodes=starts))
            ctx.ob('stores-element', subj, p is None, 'can return without storing the element', path=p)
        if not starts:
            raise Missing('%s does not store an element' % name)
        for s in starts:
            p = uncut(g, s, exits(g), Cut(conds=stop))
            ctx.ob('sift-down-stop', subj, p is None, 'the heap order below a changed slot is left unrestored on this path', s, p)
        downs = [(n, src, dst) for n, src, dst, k in moves(g, D) if k == 'copy' or k == 'swap']
        cont = lambda t, pol: bool(lt(t, pol)) and min_child(lt(t, pol)[0], None)
        for n, src, dst in downs:
            if not min_child(src, None) and not any(min_child(s2, None) for m2, s2, d2 in downs if m2 is n):
                ctx.ob('sift-down-move', subj + ':child', False, 'the element moved up is not the smallest child', n)
                continue
            p = uncut(g, g.root, lambda x: x is n, Cut(conds=cont))
            ctx.ob('sift-down-move', subj, p is None, 'a child is moved up although it was not found to be smaller', n, p)
            if uncut_next(g, n, exits(g), Cut(conds=stop)) is not None:
                ctx.ob('sift-down-stop', subj + ':again', False, 'sifting down stops after one move', n)
        init = inits(g, D, Q, starts)
        for n, i, j in pairs(downs, D):
            for c, q in ((i, j), (j, i)):
                if children_elem(q):
                    bad = [v for v in walk(g, c) if CAN(v) not in init and not children_elem(v)]
                    ctx.ob('sift-down-position', subj, not bad, 'sifting down continues at slot %s, which is neither the changed slot nor a child' % ', '.join(map(show, bad)), n)
        ctx.ob('sift-down-move', subj + ':exists', bool(downs), 'no downward move found')
    # update_key dispatches on the comparison with the stored element
    g = ctx.graph(ms['update_key'], key='upd', opaque=lambda f: fname(f).endswith(('::decrease_key', '::increase_key')))
    subj = fname(ms['update_key'])
    for meth, var, rev in (('decrease_key', 'Less', 'Greater'), ('increase_key', 'Greater', 'Less')):
        cs = [n for n in g.events('call') if n.d['method'] == meth]
        ok = bool(cs)

        def on(t, pol, var=var, rev=rev):
            # new < old for decrease
            if t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) in ('cmp', 'partial_cmp') and len(t[1][2]) == 2:
                a, b = t[1][2]
                if a == ('arg', 2) and b[0] == 'idx' and b[1] == D:
                    return (t[2] == var) and pol
                if b == ('arg', 2) and a[0] == 'idx' and a[1] == D:
                    return (t[2] == rev) and pol
            r = lt(t, pol)
            if r:
                a, b = (r[0], r[1]) if meth == 'decrease_key' else (r[1], r[0])
                return a == ('arg', 2) and b[0] == 'idx' and b[1] == D
            return False
        for n in cs:
            p = uncut(g, g.root, lambda x: x is n, Cut(conds=on))
            ctx.ob('update-dispatch', '%s:%s' % (subj, meth), p is None and n.d['args'][1] == ('arg', 2), '%s is not applied to exactly the elements whose key became %s' % (meth, 'smaller' if var == 'Less' else 'larger'), n, p)
        ctx.ob('update-dispatch', '%s:%s exists' % (subj, meth), ok, 'update_key never calls %s' % meth)

        def other(t, pol):
            if t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) in ('cmp', 'partial_cmp'):
                return (pol and t[2] in ('Equal',)) or (not pol and t[2] == (var if t[1][2][0] == ('arg', 2) else rev)) or (pol and t[2] in ('Less', 'Greater') and not on(t, pol))
            r = lt(t, not pol)
            return bool(r) and on(t, not pol)
        p = uncut(g, g.root, exits(g), Cut(nodes=cs, conds=other))
        ctx.ob('update-dispatch', '%s:%s complete' % (subj, meth), p is None, 'update_key can return without reacting to a key change', path=p)
    ctx.floor('sift-up-position', 2)
    ctx.floor('sift-down-position', 2)
    ctx.floor('sift-up-stop', 2)
    ctx.floor('sift-down-stop', 2)


def inits(g, D, Q, starts):
    """slots changed before a sift"""
    r = set()
    for n in starts:
        for m, src, dst, k in moves(g, D):
            if m is n:
                r.add(CAN(('len', D)) if k == 'push' else CAN(dst))
                if k == 'push':
                    r.add(CAN(('bin', 'Sub', ('len', D), ('const', 1))))
    return r


def pairs(ms, D):
    """[(node, slot, slot)] the two slots of each move"""
    for n, src, dst in ms:
        if src[0] == 'idx' and src[1] == D:
            yield n, src[2], dst


def walk(g, c):
    """values a loop position can take"""
    if c[0] == 'fld':
        r = []
        for n, pl, v in stores(g):
            if pl == c:
                r.append(v)
            if pl == c[1] and v[0] == 'agg':
                r += [x for f, x in v[3] if f == c[2]]
        return r
    return g.A.alternatives(c)


def norm_hi(t, D):
    """min(A*pos + A + 1, len) as a set of summands"""
    t = CAN(t)
    if t[0] == 'bin' and t[1] == 'min':
        o = [x for x in (t[2], t[3]) if x != ('len', D)]
        if len(o) == 1:
            c, parts = 0, []
            st = [o[0]]
            while st:
                x = st.pop()
                if x[0] == 'bin' and x[1] == 'Add':
                    st += [x[2], x[3]]
                elif x[0] == 'const' and isinstance(x[1], int):
                    c += x[1]
                else:
                    parts.append(x)
            return ('hi', c, tuple(sorted(map(repr, parts))))
    return t


def hole_pos(e):
    while e[0] == 'fld':
        if e[1][0] == 'loc':
            return ('fld', e[1], 'pos')
        e = e[1]
    return None


def conds_terms(g):
    return {t for a, b, t, p in edge_terms(g)}


# ------------------------------------------------------------------ queries
def r_queries(ctx):
    D, Q = fields(ctx)
    ms = dict(heap_methods(ctx))

    def rets(name):
        g = ctx.graph(ms[name])
        return g, [(n, v, es) for n in g.events('ret') if n.ctx == 0 for v, es in g.cases(n.d['value'])]
    g, rs = rets('contains_index')
    for n, v, es in rs:
        t, pol = g.A.cond(v, True)
        ok = t[0] == 'bin' and t[1] == 'Eq' and not pol and any(a == ('idx', Q, ('arg', 2)) and is_inv(b) for a, b in ((t[2], t[3]), (t[3], t[2])))
        ok = ok or (t[0] == 'bin' and t[1] == 'Lt' and pol and t[2] == ('idx', Q, ('arg', 2)) and (t[3] == ('len', D) or is_inv(t[3])))
        ctx.ob('contains', fname(ms['contains_index']), ok, 'contains_index must tell whether the position of the id is valid: %s' % show(v), n)
    g, rs = rets('get')
    for n, v, es in rs:
        ok = (v[0] == 'call' and tail(v) == 'get' and v[2][0] == D and v[2][1] == ('idx', Q, ('arg', 2))) or (v[0] == 'agg' and v[2] == 'None') or \
            (v[0] == 'agg' and v[2] == 'Some' and v[3][0][1] == ('idx', D, ('idx', Q, ('arg', 2))))
        ctx.ob('lookup', fname(ms['get']), ok, 'get must return the element at the position of the id: %s' % show(v), n)
    g, rs = rets('peek')
    for n, v, es in rs:
        ok = (is_call(v, 'first') and v[2][0] == D) or (is_call(v, 'get') and v[2] == (D, ('const', 0))) or (v[0] == 'agg' and (v[2] == 'None' or v[3][0][1] == ('idx', D, ('const', 0))))
        ctx.ob('lookup', fname(ms['peek']), ok, 'peek must return the root: %s' % show(v), n)
    g, rs = rets('pop')
    for n, v, es in rs:
        if v[0] == 'agg' and v[2] == 'None':
            p = g.path_via(es, n, edge_ok=Cut(conds=lambda t, pol: (t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) in ('pop', 'first', 'peek') and (t[2] == 'None') == pol) or pol and CAN(t) == CAN(('bin', 'Eq', ('len', D), ('const', 0)))).edge_ok)
            ctx.ob('lookup', fname(ms['pop']), p is None, 'pop returns None although the heap was not found to be empty', n, p)
    # push rejects a contained element
    g = ctx.graph(ms['push'])
    cont = lambda t, pol: pol and t[0] == 'bin' and t[1] == 'Eq' and any(a[0] == 'idx' and a[1] == Q and idx_of(a[2]) == ('arg', 2) and is_inv(b) for a, b in ((t[2], t[3]), (t[3], t[2])))
    for n, src, dst, k in moves(g, D):
        if k == 'push':
            p = uncut(g, g.root, lambda x: x is n, Cut(conds=cont))
            ctx.ob('push-unique', fname(ms['push']), p is None, 'an element can be inserted twice', n, p)
    g = ctx.graph(ms['new']) if 'new' in ms else None
    for n in g.events('ret'):
        v = n.d['value']
        d = dict(v[3]) if v[0] == 'agg' else {}
        x = d.get(Q[2], ('bot',))
        ctx.ob('contains', fname(ms['new']), is_call(x, 'from_elem') and is_inv(x[2][0]) and x[2][1] == ('arg', 1), 'a new heap must contain nothing', n)


# ------------------------------------------------------------------ clients
KEYCHANGE = ('decrease_key', 'increase_key', 'update_key')


def r_clients(ctx):
    import re
    pat = re.compile(r'IndexdMinHeap(?:::)?<.*>::(decrease_key|increase_key|update_key)\(')
    n_keys = 0
    roots = []
    for f in ctx.P.funcs.values():
        tx = f._text
        if 'IndexdMinHeap' not in tx or not pat.search(tx):
            continue
        if f.impl is not None and f.impl[0].split('<')[0].split('::')[-1].strip() == 'IndexdMinHeap':
            continue
        roots.append(f)
    seen = set()
    for f in roots:
        if '{closure' in f.key:
            # analysed inside the function that creates it
            base = f.key.split('::{closure')[0]
            fs = [x for x in ctx.P.funcs.values() if x.key == base]
            f = fs[0] if fs else f
        if f.key in seen:
            continue
        seen.add(f.key)
        # accessors (as_index) are first kept as calls, then looked through: either view may identify the element
        pend = None
        for view in ('call', 'through'):
            if pend is not None and not any(p for n, m, p in pend):
                break
            g = ctx.graph(f, key='clients-' + view, opaque=lambda x: state.prim(x) or x.key != f.key and '{closure' not in x.key and (view == 'call' or x.key.rsplit('::', 1)[-1] != 'as_index'))
            cur = []
            for n in g.events('call'):
                if n.d['method'] in KEYCHANGE and 'IndexdMinHeap' in n.d['key'] and not n.d.get('inl'):
                    cur.append((n, n.d['method'], unguarded(g, n)))
            if pend is not None:
                good = {(n.span, n.d.get('ctxspan')) for n, m, p in pend if not p}
                cur = [(n, m, None if (n.span, n.d.get('ctxspan')) in good else p) for n, m, p in cur]
            pend = cur
        for n, m, p in pend:
            n_keys += 1
            ctx.ob('guarded-key-change', '%s:%s' % (fname(f), m), p is None, '%s for an element that was not found to be in the queue: the index of an absent element is out of range' % m, n, p)
    ctx.ob('count-floor', 'key changes>=15', n_keys >= 15, 'only %d key changes found in the engine' % n_keys)


def unguarded(g, n):
    """path to a key change without a test that the element is in this very queue"""
    q, x = n.d['args'][0], n.d['args'][1]
    # keys of elements taken from the queue itself
    if any(s[0] == 'elem' and any(is_call(y, 'elements') and y[2][0] == q for y in subterms(s[1])) for s in subterms(x)):
        return None

    def test(t, pol):
        if t[0] == 'call' and tail(t) == 'contains_index' and t[2][0] == q and same_index(t[2][1], x):
            return pol
        if t[0] == 'is' and t[1][0] == 'call' and tail(t[1]) == 'get' and t[1][2][0] == q and same_index(t[1][2][1], x):
            return (t[2] == 'Some') == pol
        return False
    return uncut(g, g.root, lambda y: y is n, Cut(conds=test))


def same_index(i, x):
    """i is an index computed from the queue element x alone"""
    if i == x or idx_of(i) == x:
        return True
    sub = set(subterms(x))
    hit = []

    def der(t):
        if t[0] == 'const':
            return True
        if t in sub:
            hit.append(t)
            return True
        if t[0] == 'bin':
            return der(t[2]) and der(t[3])
        if t[0] == 'call':
            return bool(t[2]) and all(der(y) for y in t[2])
        if t[0] == 'cast':
            return der(t[-1])
        return False
    return der(i) and bool(hit)


RULES = [('index', r_index), ('order', r_order), ('queries', r_queries), ('clients', r_clients)]
