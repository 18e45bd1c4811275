"""Queries shared by the property rules, all over the event graphs of core.py."""
from core import subterms, show

# ------------------------------------------------------------------ terms
COMM = {'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'min', 'max'}


class Canon:
    """normal form of arithmetic terms: named integer constants folded, x/2^k -> x>>k, x%2^k -> x&(2^k-1), x*2^k -> x<<k, sorted operands"""

    def __init__(self, consts=None):
        self.consts = consts or {}
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def go(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == 'const':
            if isinstance(t[1], str) and t[1] in self.consts:
                return ('const', self.consts[t[1]])
            return t
        if k == 'bin':
            a, b = self(t[2]), self(t[3])
            return self.bin(t[1], a, b)
        if k == 'cast':
            return self(t[-1]) if isinstance(t[-1], tuple) else t
        return tuple(self.sub(x) for x in t)

    def sub(self, x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and not (len(x) == 2 and isinstance(x[1], tuple)):
                return self(x)
            return tuple(self.sub(y) for y in x)
        return x

    def bin(self, op, a, b):
        pow2 = b[0] == 'const' and isinstance(b[1], int) and not isinstance(b[1], bool) and b[1] > 0 and b[1] & (b[1] - 1) == 0
        ca = a[0] == 'const' and isinstance(a[1], int)
        cb = b[0] == 'const' and isinstance(b[1], int)
        if ca and cb:
            x, y = a[1], b[1]
            f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                 'Div': lambda: x // y, 'Rem': lambda: x % y}.get(op)
            try:
                if f:
                    return ('const', f())
            except Exception:
                pass
        if op == 'Div' and pow2:
            return ('bin', 'Shr', a, ('const', b[1].bit_length() - 1))
        if op == 'Rem' and pow2:
            return self.bin('BitAnd', a, ('const', b[1] - 1))
        if op == 'Mul':
            if ca and not cb:
                a, b = b, a
                pow2 = b[1] > 0 and b[1] & (b[1] - 1) == 0
            if pow2:
                return ('bin', 'Shl', a, ('const', b[1].bit_length() - 1))
        if op in COMM and repr(b) < repr(a):
            a, b = b, a
        return ('bin', op, a, b)


def tail(t):
    """last path component of a named callee / constant"""
    s = t[1] if isinstance(t, tuple) else t
    return s.replace('.', '::').rsplit('::', 1)[-1]


def is_call(t, *names):
    return t[0] == 'call' and tail(t) in names


def is_const(t, *vals):
    return t[0] == 'const' and (not vals or t[1] in vals)


def phifree(A, t):
    return A.alternatives(t) if hasattr(A, 'alternatives') else [t]


# ------------------------------------------------------------------ stores
def stores(g):
    """[(node, place, value)] of everything that overwrites one memory cell: assignments, atomic stores, mem::replace/swap halves"""
    res = []
    for n in g.events('write', 'call'):
        if n.kind == 'write':
            res.append((n, n.d['place'], n.d['value']))
        elif not n.d.get('inl'):
            m = n.d['method'] or ''
            a = n.d['args']
            if m == 'store' and len(a) >= 2:
                res.append((n, a[0], a[1]))
            elif m in ('replace', 'write') and len(a) == 2:
                res.append((n, a[0], a[1]))
            elif m == 'swap' and len(a) == 2 and 'mem' in n.d['key']:
                res.append((n, a[0], a[1]))
                res.append((n, a[1], a[0]))
    return res


def strip_idx(t):
    """container of an element address: (container, index) or None"""
    if t[0] in ('idx',):
        return t[1], t[2]
    if t[0] == 'elem':
        return t[1], None
    return None


# ------------------------------------------------------------------ paths
class Cut:
    """a set of nodes and edge conditions; `g.path` avoiding it = counterexample path"""

    def __init__(self, nodes=(), conds=None, edges=()):
        self.nodes = {n.id for n in nodes}
        self.conds = conds              # (term, polarity) -> bool
        self.edges = set(edges)         # (id, id)

    def node(self, n):
        return n.id in self.nodes

    def edge_ok(self, a, b, c):
        if (a.id, b.id) in self.edges:
            return False
        if self.conds is not None and c:
            for t, pol in c:
                if self.conds(t, pol):
                    return False
        return True


def uncut(g, start, goal, cut):
    """path start -> goal (a node predicate) that avoids the cut, or None"""
    if cut.node(start):
        return None
    if goal(start):
        return [start]
    return g.path(start, goal, avoid=cut.node, edge_ok=cut.edge_ok)


def exits(g):
    ids = {e.id for e in g.exits}
    return lambda n: n.id in ids


def both_sides(g, node, cut):
    """a root -> node -> exit path that avoids the cut on both sides (the event never happens around node), or None"""
    p = uncut(g, g.root, lambda n: n is node, cut)
    if p is None:
        return None
    if cut.node(node):
        return None
    q = uncut(g, node, exits(g), cut)
    if q is None:
        return None
    return p + q[1:]


EARLY = ('all', 'any', 'position', 'find', 'try_for_each', 'find_map', 'take_while', 'skip_while', 'map_while')
NEXTS = ('next', 'pop', 'pop_front', 'pop_back')


def loop_heads(g, pred):
    """[(head, body entry, exit edges)] of loops whose element satisfies pred(element term)"""
    res = []
    for h in g.nodes:
        if h.id not in g.reach:
            continue
        if h.kind == 'loop':
            # closure of an iterator adaptor
            if h.d.get('method') in EARLY or not any(pred(a, ('call', 'next', (a[1] if len(a) > 1 else a,))) for a in h.d.get('args', ()) if isinstance(a, tuple) and a[0] == 'elem'):
                continue
            ent = [m for m, c in h.succ if any(t[0] == 'more' and pol for t, pol in c)]
            out = [(h.id, m.id) for m, c in h.succ if any(t[0] == 'more' and not pol for t, pol in c)]
            for m in ent:
                res.append((h, m, out))
            continue
        for m, c in h.succ:
            for t, pol in c:
                if pol and t[0] == 'is' and t[2] == 'Some' and t[1][0] == 'call' and tail(t[1]) in NEXTS and t[1][2]:
                    if pred(g.A.fld(t[1], 'Some.0'), t[1]):
                        out = [(h.id, x.id) for x, cc in h.succ if any(p and tt[0] == 'is' and tt[1] == t[1] and tt[2] == 'None' for tt, p in cc)]
                        res.append((h, m, out))
    return res


def is_reset_value(v):
    return v[0] in ('const', 'fnitem') or (v[0] == 'agg' and all(is_reset_value(x) for _, x in v[3])) or (v[0] == 'call' and (not v[2] or all(is_reset_value(x) for x in v[2]))) or \
        (v[0] == 'call' and tail(v) in ('clone', 'from_elem') and v[2])


def refill_cut(g, cont, value_ok, reset_calls=('reset',)):
    """edges / nodes after which every element of container term `cont` has been overwritten by an accepted value"""
    nodes = []
    edges = []
    el_writes = {}
    part = g.A.partial
    if any(strip_iter(x) == cont for x in part):
        return nodes, edges
    for n, pl, v in stores(g):
        if pl == cont and (value_ok(v) or (is_call(v, 'from_elem') and value_ok(v[2][0]))):
            nodes.append(n)
        if pl[0] == 'elem' and pl[1] == cont and value_ok(v):
            el_writes.setdefault(pl, []).append(n)
        if pl[0] == 'idx' and pl[1] == cont and pl[2][0] == 'elem' and value_ok(v) and full_range(pl[2][1], cont):
            el_writes.setdefault(pl[2], []).append(n)
    for n in g.events('call'):
        if n.d.get('inl') or not n.d['args']:
            continue
        a = n.d['args']
        if n.d['method'] == 'fill' and a[0] == cont and len(a) > 1 and value_ok(a[1]):
            nodes.append(n)
        if n.d['method'] in reset_calls:
            if a[0][0] == 'elem' and a[0][1] == cont:
                el_writes.setdefault(a[0], []).append(n)
            elif a[0][0] == 'idx' and a[0][1] == cont and a[0][2][0] == 'elem' and full_range(a[0][2][1], cont):
                el_writes.setdefault(a[0][2], []).append(n)
    for el, ns in el_writes.items():
        heads = loop_heads(g, lambda e, c: e == el)
        cut = Cut(nodes=ns)
        if not heads:
            # closure form (for_each): executed for every element
            nodes += ns
        for h, m, out in heads:
            # every iteration passes a reset before the next iteration; no way out of the body other than the exhausted iterator
            if uncut(g, m, lambda x: x is h, cut) is None and uncut(g, m, exits(g), Cut(nodes=ns + [h])) is None:
                edges += out
    return nodes, edges


def strip_iter(t):
    while t[0] in ('iter', 'enum', 'elem'):
        t = t[1]
    return t


def full_range(it, cont):
    """iterator term covering 0..len(cont)"""
    while it[0] == 'iter':
        it = it[1]
    return it[0] == 'agg' and it[1].startswith('Range') and it[3] and it[3][0][1] == ('const', 0) and it[3][1][1] == ('len', cont)


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


def edge_terms(g):
    for n in g.nodes:
        if n.id in g.reach:
            for m, c in n.succ:
                for t, pol in c:
                    yield n, m, t, pol


_CONSTS = {}


def source_consts(repo):
    """integer constants of the workspace, evaluated from their definitions (names defined twice with different values are dropped)"""
    import os, re
    if repo in _CONSTS:
        return _CONSTS[repo]
    defs = {}
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'node_modules')]
        for f in fs:
            if f.endswith('.rs'):
                s = open(os.path.join(d, f), errors='replace').read()
                for m in re.finditer(r'\bconst\s+([A-Z][A-Z0-9_]*)\s*:\s*(?:usize|u8|u16|u32|u64|i32|i64|Weight|NodeId|EdgeId)\s*=\s*([^;{]*);', s):
                    defs.setdefault(m.group(1), set()).add(m.group(2).strip())
    val = {}
    for _ in range(4):
        for k, es in defs.items():
            if len(es) != 1 or k in val:
                continue
            e = next(iter(es))
            e = re.sub(r'\b(?:std::)?u(\d+)::MAX\b', lambda m: str(2 ** int(m.group(1)) - 1), e)
            e = re.sub(r'\b(?:std::)?u(\d+)::BITS\b', r'\1', e)
            e = re.sub(r'\bas\s+\w+', '', e)
            e = re.sub(r'//.*', '', e)
            e = re.sub(r'size_of::<u(\d+)>\(\)', lambda m: str(int(m.group(1)) // 8), e)
            e = re.sub(r'\b([A-Z][A-Z0-9_]*)\b', lambda m: str(val.get(m.group(1), m.group(1))), e)
            e = e.replace('/', '//')
            if re.match(r'^[\d\s()+\-*/<>_]+$', e):
                try:
                    val[k] = int(eval(e.replace('_', '')))
                except Exception:
                    pass
    _CONSTS[repo] = val
    return val
