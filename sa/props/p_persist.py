"""C05: what is stored on disk is what is loaded back."""
from core import subterms, show
from framework import Missing, fname
from rules import *
import re, extract

ID = 'C05'
CRATES = 'engine'
EXPLANATION = ('The save_each and reconstruct_with implementations of every persistable type are turned into event graphs that keep the store callback and the loader calls symbolic. The file names a type writes, with the field each one comes '
               'from, are matched with the file names its reader loads, with the field each one ends up in: same set, same field, loaded value unchanged, every file written on every successful path. Files of opposite directions never end up in '
               'or derive a field of the other direction. The byte level primitives are decided on their own graphs: whole buffer written to a truncated file, exact read of the whole object sized by the file, byte counts of len * size_of.')
ASSUMPTIONS = ['the file system returns the bytes written to it', 'save and load run on the same platform (native endianness and layout)']
CAN = Canon(source_consts(extract.REPO))
LOADS = ('load', 'reconstruct', 'reconstruct_prepared', 'reconstruct_from')
MUT = ('push', 'truncate', 'sort', 'sort_unstable', 'sort_by_key', 'swap', 'clear', 'extend', 'pop', 'remove', 'reverse', 'retain', 'dedup', 'resize', 'rotate_left', 'rotate_right', 'fill', 'drain', 'iter_mut', 'swap_remove', 'insert', 'append')
# number of files each persistable type keeps
FILES = {'algo::customizable_contraction_hierarchy::CCH': 2, 'algo::customizable_contraction_hierarchy::CustomizedPerfect': 4, 'algo::customizable_contraction_hierarchy::customization::ftd_for_pot::PotData': 11,
         'algo::traffic_aware::td_traffic_pots::MultiMetric': 6, 'algo::traffic_aware::td_traffic_pots::MultiMetricPreprocessed': 6, 'algo::traffic_aware::td_traffic_pots::MinMaxPotential': 2,
         'algo::traffic_aware::td_traffic_pots::IntervalMinPotential': 6, 'algo::td_astar::MultiMetric': 6, 'algo::td_astar::MultiMetricPreprocessed': 6, 'algo::td_astar::MinMaxPotential': 2, 'algo::td_astar::IntervalMinPotential': 6,
         'datastr::graph::floating_time_dependent::shortcut_graph::CustomizedGraph': 12, 'datastr::graph::first_out_graph::FirstOutGraph': 3, 'datastr::graph::first_out_graph::UnweightedFirstOutGraph': 2, 'datastr::node_order::NodeOrder': 1}


def opaque(f):
    return f.key.startswith(('report', 'io::'))


def sconst(t):
    return t[1][4:-1] if t[0] == 'const' and isinstance(t[1], str) and t[1].startswith('str(') else t[1] if t[0] == 'str' else None


def name_of(t):
    s = show(t)
    m = re.fullmatch(r'str\((.*)\)', s)
    return m.group(1) if m else None


def strip(t):
    while True:
        if t[0] == 'agg' and t[1].rsplit('::', 1)[-1] == 'Sub' and t[3]:
            t = t[3][0][1]
        elif t[0] == 'call' and tail(t) in ('as_ref', 'deref', 'as_slice', 'borrow', 'into', 'into_boxed_slice', 'from', 'unwrap', 'expect') and t[2]:
            t = t[2][0]
        elif t[0] == 'cast':
            t = t[-1]
        else:
            return t


def path_of(t, root=('arg', 1)):
    p = []
    t = strip(t)
    while t[0] == 'fld':
        p.append(t[2])
        t = strip(t[1])
    return tuple(reversed(p)) if t == root else None


def impls(ctx, trait, method):
    for f in ctx.P.funcs.values():
        if '{closure' in f.key or not f.impl or not f.impl[1]:
            continue
        if f.impl[1].split('<')[0].split('::')[-1] == trait and f.key.rsplit('::', 1)[-1] == method:
            yield f


def base(t):
    return re.sub(r"<.*", '', t).split('::')[-1].strip().lstrip('&')


def saved(ctx, f):
    """[(node, name, field path)]"""
    g = ctx.graph(f, key='io', opaque=opaque)
    r = []
    for n in g.events('call'):
        if n.d.get('inl') or n.d['method'] not in ('call', 'call_mut') or len(n.d['args']) < 2:
            continue
        if n.d['args'][0] != ('arg', 2):
            continue
        a = n.d['args'][1]
        if a[0] == 'agg' and len(a[3]) == 2:
            for nm, val, el in expand(a[3][0][1], a[3][1][1]):
                r.append((n, name_of(nm), path_of(val), val) if el is None else (Each(g, n, el), name_of(nm), path_of(val), val))
    return g, r


def expand(nm, val):
    """a loop over a literal list of (name, part) pairs writes each of them"""
    els = {x for x in subterms(nm) if x[0] == 'elem' and x[1][0] == 'agg' and x[1][1] == '[]'}
    if len(els) != 1:
        return [(nm, val, None)]
    el = els.pop()

    def sub(t, y):
        if t == el:
            return y
        if t[0] == 'fld':
            b = sub(t[1], y)
            if b[0] == 'agg':
                for k, x in b[3]:
                    if str(k) == str(t[2]):
                        return x
            return ('fld', b, t[2])
        return tuple(sub(x, y) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(sub(z, y) for z in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str) and x[0][0] in ('call', 'fld', 'elem', 'arg', 'agg', 'cast') else x for x in t)
    return [(sub(nm, y), sub(val, y), el) for _, y in el[1][3]]


class Each:
    """the store call of a loop, for one of its elements"""

    def __init__(self, g, n, el):
        self.g, self.n, self.el = g, n, el
        self.span, self.d = n.span, n.d

    def cut(self):
        g, edges = self.g, []
        for h, ent, out in loop_heads(g, lambda e, c: e == self.el):
            if uncut(g, ent, lambda x: x is h, Cut(nodes=[self.n])) is None:
                edges += out
        return Cut(edges=edges)


class Loaded:
    def __init__(self, ctx, f):
        self.g = g = ctx.graph(f, key='io', opaque=opaque)
        self.f = f
        self.calls = {}
        self.rets = []
        for n in g.events('call'):
            if n.d['method'] in LOADS and not n.d.get('inl'):
                t = None
                for a in n.d['args']:
                    s = name_of(a)
                    if s is not None:
                        t = s
                self.calls.setdefault(t if t is not None else show(n.d['args'][-1]), []).append(n)
        for n in g.events('ret'):
            if n.ctx == 0:
                v = n.d['value']
                if v[0] == 'agg' and v[2] == 'Ok':
                    self.rets.append((n, v[3][0][1]))
                elif v[0] == 'agg' and v[2] == 'Err':
                    pass
                else:
                    self.rets.append((n, v))

    def srcs(self, t, seen=None, depth=0):
        """file names a term is computed from, through variables, collected iterators and stores into it"""
        seen = set() if seen is None else seen
        res = set()
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'call' and tail(x) in LOADS:
                for a in x[2]:
                    s = name_of(a)
                    if s is not None:
                        res.add(s)
                if tail(x) == 'reconstruct_from':
                    res.add('<' + x[1].rsplit('.', 1)[0] + '>')
            if x[0] == 'phi' and depth < 12:
                for y in self.g.A.phis.get(x, ()):
                    res |= self.srcs(y, seen, depth + 1)
            if x[0] == 'loc' and depth < 12:
                for y in self.g.A.celldefs.get(x, ()) or ():
                    res |= self.srcs(y, seen, depth + 1)
            if x[0] in ('elem', 'enum', 'iter', 'mapit', 'zip') and depth < 12:
                for y in x[1:]:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        res |= self.srcs(y, seen, depth + 1)
        return res

    def written(self, c):
        """file names that influence the contents of a container built in place"""
        res = set()
        for n, pl, v in stores(self.g):
            b = pl
            while b[0] in ('elem', 'idx', 'fld'):
                if b == c:
                    break
                if b[0] == 'idx':
                    pass
                b = b[1]
                while b[0] in ('iter', 'slice') or b[0] == 'call' and tail(b) in ('iter_mut', 'index_mut', 'slice', 'index', 'get_mut') and b[2]:
                    b = b[2][0] if b[0] == 'call' else b[1]
            if b == c:
                res |= self.srcs(pl) | self.srcs(v)
        return res

    def fields(self, t, pre=()):
        """(path, value) leaves of the result aggregate"""
        if t[0] == 'agg' and not t[1].startswith(('closure', 'Range')) and t[3]:
            for k, x in t[3]:
                nm = k.split('.')[-1] if isinstance(k, str) else k
                yield from self.fields(x, pre + (k,))
            yield pre, t
        else:
            yield pre, t

    def direct(self, t, name):
        """the value is exactly what was loaded from the file"""
        t = strip(t)
        if t[0] == 'phi':
            # a fallback for a missing file is an alternative, never an edit
            return any(self.direct(y, name) for y in self.g.A.phis.get(t, ()))
        if t[0] == 'fld' and t[2] in ('Ok.0', 'Continue.0', 'Some.0', '0'):
            return self.direct(t[1], name)
        return t[0] == 'call' and tail(t) in LOADS and any(name_of(a) == name for a in t[2])


DIRS = [({'forward', 'fw', 'outgoing', 'up', 'upward', 'upwards'}, 'forward'), ({'backward', 'bw', 'incoming', 'down', 'downward', 'downwards'}, 'backward')]
KINDS = ('first_out', 'head', 'weight', 'tail', 'order', 'ranks', 'departure_time', 'travel_time', 'first_ipp_of_arc', 'first_source', 'sources', 'bounds', 'constant')


def dirs(s):
    toks = set(re.split(r'[_.<>\s]+', s.lower()))
    return {d for ws, d in DIRS if ws & toks}


def kind(s):
    s = s.lower()
    ks = [k for k in KINDS if s == k or s.endswith('_' + k) or s.endswith('.' + k) or s.endswith(k + 's') and k == 'weight']
    return max(ks, key=len) if ks else None


def dir_rule(ctx, L, name):
    for n, v in L.rets:
        for p, t in L.fields(v):
            if not p or t[0] == 'agg' and t[3] and not t[1].startswith(('closure', 'Range')):
                continue
            ps = '.'.join(map(str, p))
            src = L.srcs(t) | L.written(t)
            if not src:
                continue
            pd = dirs(ps)
            sd = set()
            for s in src:
                sd |= dirs(s)
            if len(pd) == 1 and sd:
                ctx.ob('direction', '%s.%s' % (name, ps), sd <= pd, 'field %s is built from files of the other direction: %s' % (ps, ', '.join(sorted(src))), n)
            kn = kind(ps)
            if len(src) == 1 and L.direct(t, list(src)[0]):
                ks = kind(list(src)[0])
                if kn and ks:
                    ctx.ob('file-kind', '%s.%s' % (name, ps), kn == ks, 'field %s is loaded from the file %s' % (ps, list(src)[0]), n)


def r_pairs(ctx):
    loaders = []
    for tr in ('Reconstruct', 'ReconstructPrepared'):
        loaders += [Loaded(ctx, f) for f in impls(ctx, tr, 'reconstruct_with')]
    byty = {}
    for L in loaders:
        for n, v in L.rets:
            if v[0] == 'agg':
                byty.setdefault((L.f.key.split('::<impl')[0], base(v[1])), []).append((L, n, v))
    names = {}
    n_types = 0
    for f in impls(ctx, 'Deconstruct', 'save_each'):
        mod, ty = f.key.split('::<impl')[0], base(f.impl[0])
        T = mod + '::' + ty
        g, sv = saved(ctx, f)
        n_types += 1
        ns = [s for _, s, _, _ in sv]
        names[T] = set(ns)
        ctx.ob('distinct-files', T, len(set(ns)) == len(ns) and None not in ns, 'two parts of the object are written to the same file: %s' % ', '.join(sorted(x or '?' for x in ns)), g.root)
        ctx.ob('all-parts', T, len(ns) >= FILES.get(T, 1), 'only %d files are written, the object consists of %d parts' % (len(ns), FILES.get(T, 1)), g.root)
        rets = [n for n in g.events('ret') if n.ctx == 0 and not (n.d['value'][0] == 'agg' and n.d['value'][2] == 'Err')]
        for n, s, p, v in sv:
            ctx.ob('saved-field', '%s:%s' % (T, s), bool(p), 'the file %s does not receive a field of the object but %s' % (s, show(v)[:120]), n)
            q = uncut(g, g.root, lambda x: x in rets, n.cut() if isinstance(n, Each) else Cut(nodes=[n]))
            ctx.ob('always-saved', '%s:%s' % (T, s), q is None, 'the file %s is not written on some successful path' % s, n, q)
        ls = byty.get((mod, ty), [])
        # UnweightedOwnedGraph is the owned instance of UnweightedFirstOutGraph
        ctx.ob('has-loader', T, bool(ls), 'no reconstruct_with produces this type any more', g.root)
        for L, rn, v in ls:
            static = {k for k in L.calls if k is not None}
            fl = dict()
            for p, t in L.fields(v):
                fl[tuple(str(x) for x in p)] = t
            dyn = [k for k in static if not re.match(r'^\w+$', k)]
            for n, s, p, val in sv:
                if not p:
                    continue
                t = fl.get(tuple(str(x) for x in p))
                if t is None:
                    # a field of a field of a value that is itself constructed opaquely
                    q = p
                    while q and t is None:
                        q = q[:-1]
                        t = fl.get(tuple(str(x) for x in q))
                name = '%s:%s' % (T, s)
                if t is None or t[0] == 'agg' and not any(1 for _ in t[3]):
                    ctx.ob('same-field', name, False, 'no field %s in the loaded object' % '.'.join(p), rn)
                    continue
                if fname(L.f).endswith('WeightedGraphReconstructor::reconstruct_with') and s not in static:
                    continue
                src = L.srcs(t)
                ctx.ob('same-field', name, src == {s} or s in src and L.direct(t, s) or src == {x for x in src if x.startswith('<')} and s in static, 'the file %s holds the field %s, which is loaded from %s' % (s, '.'.join(p), ', '.join(sorted(src)) or 'nothing'), rn)
                if s in src:
                    ctx.ob('unchanged', name, L.direct(t, s), 'the field %s is not the content of the file %s but %s' % ('.'.join(p), s, show(t)[:150]), rn)
                    bad = [n2 for n2, pl, _ in stores(L.g) if pl[0] in ('idx', 'elem', 'fld') and L.direct(strip_place(pl), s)]
                    bad += [n2 for n2 in L.g.events('call') if n2.d['method'] in MUT and not n2.d.get('inl') and n2.d['args'] and L.direct(n2.d['args'][0], s)]
                    ctx.ob('unchanged', name + ':edits', not bad, 'the loaded content of %s is modified before it is used' % s, bad[0] if bad else None)
            if not dyn:
                miss = static - set(ns) - {''}
                allowed = set()
                if T.endswith('::CCH'):
                    # the node order is stored into the same directory by its own save_each
                    allowed = {k for k in static if 'NodeOrder' in k or any('NodeOrder' in n.d['key'] for n in L.calls[k])}
                ctx.ob('only-saved-files', T, miss <= allowed, 'the loader reads files which are never written: %s' % ', '.join(sorted(miss - allowed)), rn)
    no, cch = names.get('datastr::node_order::NodeOrder', set()), names.get('algo::customizable_contraction_hierarchy::CCH', set())
    ctx.ob('distinct-files', 'CCH and NodeOrder in one directory', bool(no) and not no & cch, 'the contracted graph and the node order overwrite each other: %s' % ', '.join(no & cch))
    for L in loaders:
        dir_rule(ctx, L, fname(L.f))
        # every load is for exactly one purpose
        for k, nn in L.calls.items():
            if re.match(r'^\w+$', k):
                ctx.ob('loaded-once', '%s:%s' % (fname(L.f), k), len({(x.span) for x in nn}) == 1, 'the file %s is loaded for two different fields' % k, nn[0])
    ctx.ob('count-floor', 'persistable types', n_types >= 15, 'only %d Deconstruct implementations found' % n_types)
    ctx.floor('same-field', 55)
    ctx.floor('direction', 60)


def strip_place(pl):
    """the container a store writes into, without its index terms"""
    while pl[0] in ('idx', 'elem', 'fld'):
        if pl[0] == 'fld' and pl[2] in ('Ok.0', 'Continue.0') and is_call(pl[1], *LOADS):
            break
        pl = pl[1]
        while pl[0] in ('iter', 'enum', 'slice') or pl[0] == 'call' and tail(pl) in ('iter_mut', 'index_mut', 'slice', 'index', 'get_mut') and pl[2]:
            pl = pl[2][0] if pl[0] == 'call' else pl[1]
    return pl


# ---------------------------------------------------------------- primitives

def ok_rets(g):
    return [n for n in g.events('ret') if n.ctx == 0 and not (n.d['value'][0] == 'agg' and n.d['value'][2] == 'Err')]


def r_primitives(ctx):
    P = ctx.P

    def one(pat):
        return ctx.fn(pat)
    # --- write
    g = ctx.graph(one(r'^io::Store::write_to$'), key='io')

    def iswrite(n):
        if n.kind != 'call' or n.d.get('inl'):
            return False
        a = n.d['args']
        if n.d['method'] == 'write_all' and len(a) == 2:
            f = [x for x in subterms(a[0]) if x[0] == 'call']
            tr = [x for x in f if tail(x) == 'create' and mentions(x, ('arg', 2))]
            if not tr and any(tail(x) == 'truncate' and is_const(x[2][1], 1, True, 'true') for x in f):
                tr = f
            if not tr or any(tail(x) in ('append', 'create_new') for x in f):
                return False
            return is_call(a[1], 'data_bytes') and a[1][2][0] == ('arg', 1)
        if n.d['method'] == 'write' and n.d['key'].startswith(('std::fs', 'fs')) and len(a) == 2:
            return mentions(a[0], ('arg', 2)) and is_call(a[1], 'data_bytes') and a[1][2][0] == ('arg', 1)
        return False
    W = [n for n in g.nodes if n.id in g.reach and iswrite(n)]
    p = uncut(g, g.root, lambda x: x in ok_rets(g), Cut(nodes=W))
    ctx.ob('write', 'Store::write_to', p is None and bool(W), 'success is reported on a path which does not write all bytes of the object to the truncated file', p[-1] if p else g.root, p)
    buf = [n for n in W if any(x[0] == 'call' and ('BufWriter' in x[1] or 'LineWriter' in x[1]) for x in subterms(n.d['args'][0]))]
    if buf:
        fl = [n for n in g.events('call') if n.d['method'] in ('flush', 'into_inner', 'sync_all')]
        p = uncut(g, buf[0], lambda x: x in ok_rets(g), Cut(nodes=fl))
        ctx.ob('write', 'Store::write_to:flush', p is None, 'the buffered writer is dropped without flush: its errors and bytes are lost', p[-1] if p else None, p)
    # --- read
    g = ctx.graph(one(r'^io::Load::load_from$'), key='io')
    R = []
    for n in g.events('call'):
        if n.d['method'] == 'read_exact' and not n.d.get('inl') and len(n.d['args']) == 2:
            b = n.d['args'][1]
            f = [x for x in subterms(n.d['args'][0]) if x[0] == 'call' and tail(x) == 'open' and mentions(x, ('arg', 1))]
            if is_call(b, 'data_bytes_mut') and is_call(b[2][0], 'new_with_bytes') and f:
                R.append((n, b[2][0]))
    for e in ok_rets(g):
        v = e.d['value']
        v = v[3][0][1] if v[0] == 'agg' and v[2] == 'Ok' else v
        ns = [n for n, o in R if o == v]
        p = uncut(g, g.root, lambda x: x is e, Cut(nodes=ns))
        ctx.ob('read', 'Load::load_from', p is None, 'the returned object was not filled with exactly the bytes of the file', e, p)
        sz = v[2][0] if is_call(v, 'new_with_bytes') and v[2] else None
        sz = strip(sz) if sz else None
        while sz is not None and sz[0] == 'cast':
            sz = sz[-1]
        good = sz is not None and (sz[0] == 'len' or is_call(sz, 'len')) and any(x[0] == 'call' and tail(x) == 'metadata' for x in subterms(sz))
        ctx.ob('read', 'Load::load_from:size', good, 'the object is not sized by the length of the file', e)

        def full(t, pol):
            t = CAN(t)
            if t[0] == 'bin' and t[1] in ('Eq', 'Ne'):
                s = show(t)
                return 'data_bytes_mut' in s and 'metadata' in s and (t[1] == 'Eq') == pol
            return False
        p = uncut(g, g.root, lambda x: x is e, Cut(conds=full))
        ctx.ob('read', 'Load::load_from:whole-file', p is None, 'nothing ensures that the object is as long as the file: the rest of the file would be dropped silently', e, p)
    if not R:
        ctx.ob('read', 'Load::load_from', False, 'no read_exact of the whole object', g.root)
    # --- parts
    for f in impls(ctx, 'Save', 'save'):
        g = ctx.graph(f, key='io-save', opaque=lambda x: x.key.rsplit('::', 1)[-1] in ('write_to', 'deconstruct_to'))
        cs = [n for n in g.events('call') if n.d['method'] in ('write_to', 'deconstruct_to') and not n.d.get('inl') and path_of(n.d['args'][0]) in ((), ('0',)) and mentions(n.d['args'][1], ('arg', 2))]
        p = uncut(g, g.root, lambda x: x in ok_rets(g), Cut(nodes=cs))
        ctx.ob('write', 'Save::save for %s' % f.impl[0], p is None and bool(cs), 'success is reported on a path which does not store the part', p[-1] if p else g.root, p)
    # --- byte views
    cnt = 0
    for tr, m, raw in (('DataBytes', 'data_bytes', 'from_raw_parts'), ('DataBytesMut', 'data_bytes_mut', 'from_raw_parts_mut')):
        for f in impls(ctx, tr, m):
            g = ctx.graph(f, key='io')
            tx = f._text
            for e in ok_rets(g):
                v = e.d['value']
                cnt += 1
                name = '%s for %s' % (m, f.impl[0])
                if is_call(v, 'data_bytes', 'data_bytes_mut'):
                    x = strip(v[2][0])
                    pp = path_of(x)
                    # BitVec delegates to its words
                    ctx.ob('byte-view', name, pp is not None and (pp == () or not re.search(r'\bT\b', f.impl[0]) or 'BitVec' in f.impl[0] and len(pp) == 1), 'the bytes are those of %s' % show(x), e)
                elif is_call(v, raw):
                    c = CAN(v[2][1])
                    ptr = strip(v[2][0])
                    while ptr[0] == 'call' and tail(ptr) in ('as_ptr', 'as_mut_ptr', 'cast', 'as_ptr_range'):
                        ptr = strip(ptr[2][0])
                    fs = factors(c)
                    ok = path_of(ptr) == () and len(fs) == 2 and any(x[0] == 'len' and x[1] == ('arg', 1) or is_call(x, 'len') and x[2][0] == ('arg', 1) for x in fs) and any(is_call(x, 'size_of') for x in fs) and \
                        set(re.findall(r'size_of::<([^>]*)>', tx)) <= {'T'}
                    ok = ok or path_of(ptr) == () and is_call(c, 'size_of_val') and c[2][0] == ('arg', 1)
                    ctx.ob('byte-view', name, ok, 'the byte view has %s bytes instead of len * size_of::<T>()' % show(c), e)
                else:
                    pp = [x for x in subterms(v) if x[0] == 'arg']
                    ctx.ob('byte-view', name, 'BitVec' in f.impl[0] or is_call(v, 'align_to'), 'unexpected byte view %s' % show(v)[:100], e)
    ctx.ob('count-floor', 'byte views', cnt >= 8, 'only %d byte views found' % cnt)
    # --- allocation for loading
    cnt = 0
    for f in impls(ctx, 'Load', 'new_with_bytes'):
        g = ctx.graph(f, key='io-nwb', opaque=lambda x: 'BitVec' in (x.impl[0] if x.impl else ''))
        name = 'new_with_bytes for %s' % f.impl[0]
        for e in ok_rets(g):
            v = e.d['value']
            cnt += 1
            if 'BitVec' in f.impl[0]:
                x = CAN(v[2][0]) if is_call(v, 'new') and v[2] else None
                ctx.ob('load-size', name, x is not None and x == CAN(('bin', 'Mul', ('arg', 1), ('const', 8))), 'the bit vector gets %s bits instead of 8 per byte' % (show(x) if x else '?'), e)
                continue
            counts = []
            for x in subterms(v):
                if x[0] == 'agg' and x[1].startswith('Range') and x[3] and x[3][0][1] == ('const', 0):
                    counts.append(x[3][1][1])
                if is_call(x, 'from_elem'):
                    counts.append(x[2][1])
            ok = bool(counts) and all(c[0] == 'bin' and c[1] == 'Div' and c[2] == ('arg', 1) and is_call(c[3], 'size_of') for c in map(CAN, counts)) and set(re.findall(r'size_of::<([^>]*)>', f._text)) <= {'T'}
            ctx.ob('load-size', name, ok, 'the object is not allocated with bytes / size_of::<T>() elements', e)

            def div(t, pol):
                t = CAN(t)
                return t[0] == 'bin' and t[1] in ('Eq', 'Ne') and 'Rem' in show(t) and any(is_call(x, 'size_of') for x in subterms(t)) and (t[1] == 'Eq') == pol
            p = uncut(g, g.root, lambda x: x is e, Cut(conds=div))
            ctx.ob('load-size', name + ':divisible', p is None, 'a file whose length is no multiple of the element size is accepted', e, p)
    ctx.ob('count-floor', 'load sizes', cnt >= 3, 'only %d new_with_bytes found' % cnt)
    # --- directories
    g = ctx.graph(one(r'^io::Deconstruct::deconstruct_to$'), key='io')
    sv = [n for n in g.events('call') if n.d['method'] == 'save' and not n.d.get('inl')]
    ok = bool(sv)
    for n in sv:
        a = n.d['args']
        ok = ok and a[0][0] == 'clarg' and is_call(strip(a[1]), 'join') and mentions(strip(a[1])[2][0], ('arg', 2)) and any(x[0] == 'clarg' and x != a[0] for x in subterms(strip(a[1])[2][1])) and \
            strip(strip(a[1])[2][1])[0] == 'clarg'
    ctx.ob('directory', 'Deconstruct::deconstruct_to', ok, 'a part is not stored under its own name in the directory', sv[0] if sv else g.root)
    se = [n for n in g.events('call') if n.d['method'] == 'save_each' and not n.d.get('inl')]
    mk = [n for n in g.events('call') if n.d['method'] in ('create_dir', 'create_dir_all')]
    p = uncut(g, g.root, lambda x: x in se, Cut(nodes=mk, conds=lambda t, pol: t[0] == 'call' and tail(t) in ('exists', 'is_dir') and pol or t[0] == 'un' and mentions_exists(t) and not pol))
    ctx.ob('directory', 'Deconstruct::deconstruct_to:exists', p is None and bool(se), 'parts are stored before the directory exists', p[-1] if p else g.root, p)
    p = uncut(g, g.root, lambda x: x in ok_rets(g), Cut(nodes=se))
    ctx.ob('directory', 'Deconstruct::deconstruct_to:all', p is None, 'success is reported without storing the parts', p[-1] if p else g.root, p)
    for m, callee in (('load', 'load_from'), ('reconstruct', 'reconstruct_from'), ('reconstruct_prepared', 'reconstruct_from')):
        f = ctx.method('Loader', m)
        g = ctx.graph(f, key='io')
        for e in ok_rets(g):
            v = e.d['value']
            ok = is_call(v, callee) and is_call(strip(v[2][-1]), 'join') and strip(strip(v[2][-1])[2][0]) == ('fld', ('arg', 1), 'path') and strip(strip(v[2][-1])[2][1]) == ('arg', 2)
            if not is_call(v, callee):
                # result handled by ?
                cs = [n for n in g.events('call') if n.d['method'] == callee and not n.d.get('inl')]
                ok = len(cs) == 1 and mentions(v, ('call',) + tuple(cs[0].d['value'][1:])) if cs and 'value' in cs[0].d else any(x[0] == 'call' and tail(x) == callee for x in subterms(v))
            ctx.ob('directory', 'Loader::' + m, ok, 'the part is not looked up under its name in the directory of the loader', e)


def mentions_exists(t):
    return any(x[0] == 'call' and tail(x) in ('exists', 'is_dir') for x in subterms(t))


def factors(t):
    if t[0] == 'bin' and t[1] == 'Mul':
        return factors(t[2]) + factors(t[3])
    return [t]


RULES = [('pairs', r_pairs), ('primitives', r_primitives)]
