"""C02: resettable containers, bit sets and sentinel options."""
import re
from core import subterms, show
from framework import Missing, fname
from rules import *
import extract

ID = 'C02'
CRATES = 'engine'
EXPLANATION = ('Every method of TimestampedVector, AtomicDists, ClearlistVector, FastClearBitVec, BitVec, SetBitsIter, RankSelectMap and InRangeOption is turned into an event graph (MIR, helpers and closures inlined). '
               'Path queries decide: a value of the data array is handed out only behind the comparison of the entry\'s stamp with the current stamp (or after both were brought up to date), the default only when they differ; '
               'stamp and payload are updated together; reset changes the stamp and, on the wrap-around branch, overwrites every payload; clear lists record every entry that leaves the default and are restored before being emptied; '
               'get/set/unset of the bit sets address one and the same word and bit; Some(x) is only produced for a non-sentinel x.')
ASSUMPTIONS = ['std containers behave as documented', 'one thread per container apart from AtomicDists', 'the payload type T of a TimestampedVector resets to T::DEFAULT (checked for the Reset impls in the workspace)']

CAN = Canon(source_consts(extract.REPO))


def roles(ctx, ty):
    for path, fs in ctx.P.structs.items():
        if path.rsplit('::', 1)[-1] == ty:
            return fs
    raise Missing('struct %s' % ty)


def role(fs, pred, what):
    r = [n for n, t in fs if pred(t.replace(' ', ''))]
    if len(r) != 1:
        raise Missing('field %s: %s' % (what, r))
    return r[0]


def methods(ctx, ty):
    res = {}
    for f in ctx.P.funcs.values():
        if f.impl is None or '{closure' in f.key:
            continue
        t = f.impl[0].split('<')[0].split('::')[-1].strip().lstrip('&')
        if t == ty and (f.impl[1] or '').split('<')[0].split('::')[-1] not in ('Clone', 'Debug', 'Drop'):
            res.setdefault(f.key.rsplit('::', 1)[-1], []).append(f)
    return [(n, f) for n, fs in sorted(res.items()) for f in fs if not ctx.private(f)]


def ret_leaves(g):
    res = []
    for n in g.events('ret'):
        if n.ctx != 0:
            continue
        for v, es in g.cases(n.d['value']):
            res.append((n, v, es))
    return res


ME = ('arg', 1)


def fl(name):
    return ('fld', ME, name)


def indices_of(t, cont):
    """index terms with which container term `cont` is accessed in t"""
    return {x[2] for x in subterms(t) if x[0] == 'idx' and x[1] == cont and x[2][0] != 'agg'}


# ------------------------------------------------------------------ timestamped
def r_timestamped(ctx):
    fs = roles(ctx, 'TimestampedVector')
    cur = role(fs, lambda t: t in ('u32', 'u64', 'u16', 'usize'), 'current stamp')
    vecs = [n for n, t in fs if 'Vec<' in t or 'Box<[' in t]
    data = role([x for x in fs if x[0] in vecs], lambda t: 'T' in re.split(r'\W', t), 'payload')
    stamps = [n for n in vecs if n != data]
    if len(stamps) != 1:
        raise Missing('timestamps field')
    stamps = fl(stamps[0])
    data, cur = fl(data), fl(cur)
    dflt = role(fs, lambda t: t == 'T', 'default')
    dflt = fl(dflt)

    def eq(i):
        return CAN(('bin', 'Eq', ('idx', stamps, i), cur))

    def dflt_value(v):
        return v == dflt or (is_const(v) and tail(str(v[1])) == 'DEFAULT') or is_call(v, 'clone') and dflt_value(v[2][0])
    for name, f in methods(ctx, 'TimestampedVector'):
        g = ctx.graph(f)
        subj = fname(f)
        if name == 'new':
            continue
        resets_current = [n for n, pl, v in stores(g) if pl == cur]
        sets_stamp = {}
        for n, pl, v in stores(g):
            c = strip_idx(pl)
            if c and c[0] == stamps and c[1] is not None and v == cur:
                sets_stamp.setdefault(CAN(c[1]), []).append(n)
        sets_data = {}
        resets_data = {}
        for n, pl, v in stores(g):
            c = strip_idx(pl)
            if c and c[0] == data and c[1] is not None:
                (resets_data if dflt_value(v) else sets_data).setdefault(CAN(c[1]), []).append(n)
        for n in g.events('call'):
            if n.d['method'] == 'reset' and not n.d.get('inl') and n.d['args']:
                c = strip_idx(n.d['args'][0])
                if c and c[0] == data and c[1] is not None:
                    resets_data.setdefault(CAN(c[1]), []).append(n)
        # R1/R2 results
        for n, v, es in ret_leaves(g):
            idxs = {CAN(i) for i in indices_of(v, data)}
            for i in idxs:
                want = eq(i)
                # a path that never establishes that the entry is current
                ups = sets_stamp.get(i, [])
                cut = Cut(nodes=ups, conds=lambda t, pol: pol and CAN(t) == want)
                p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                ctx.ob('fresh-or-default', '%s:data' % subj, p is None, 'hands out a stored element on a path on which its stamp was neither found equal to the current stamp nor set to it', n, p)
            if v == dflt or is_call(v, 'clone') and v[2][0] == dflt:
                ips = {CAN(i) for x in edge_terms(g) for i in indices_of(x[2], stamps)}
                cut = Cut(conds=lambda t, pol: not pol and any(CAN(t) == eq(i) for i in ips))
                p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                ctx.ob('fresh-or-default', '%s:default' % subj, p is None and bool(ips), 'hands out the default on a path on which the stamp was not found to be outdated', n, p)
        # R3: stamp brought up to date => payload reset or overwritten
        for i, ns in sets_stamp.items():
            over = resets_data.get(i, []) + sets_data.get(i, [])
            for n in ns:
                cut = Cut(nodes=over, conds=lambda t, pol: pol and CAN(t) == eq(i))
                p = both_sides(g, n, cut)
                ctx.ob('stamp-with-payload', '%s:stamp' % subj, p is None, 'marks an entry as current without resetting or overwriting its payload', n, p)
        # R4: payload overwritten => stamp current
        for i, ns in sets_data.items():
            for n in ns:
                cut = Cut(nodes=sets_stamp.get(i, []), conds=lambda t, pol: pol and CAN(t) == eq(i))
                p = both_sides(g, n, cut)
                ctx.ob('stamp-with-payload', '%s:payload' % subj, p is None, 'stores a value without marking the entry as current', n, p)
        # R5: set stores its value argument
        if name == 'set':
            vals = [n for i, ns in sets_data.items() for n in ns]
            p = uncut(g, g.root, exits(g), Cut(nodes=[n for n in vals if n.d.get('value') == ('arg', 3)]))
            ctx.ob('set-stores', subj, p is None, 'set can return without having stored its value argument', path=p)
            idxok = all(i == ('arg', 2) for i in sets_data)
            ctx.ob('set-stores', subj + ':index', idxok, 'set writes another index than the one it was given')
        if name in ('index', 'index_mut', 'get_unchecked', 'get_unchecked_mut'):
            bad = [v for n, v, es in ret_leaves(g) if any(i != ('arg', 2) for i in {CAN(i) for i in indices_of(v, data)})]
            ctx.ob('same-index', subj, not bad, 'returns an element at another index than the one asked for')
            if name.endswith('mut'):
                for n, v, es in ret_leaves(g):
                    ctx.ob('mut-data', subj, bool(indices_of(v, data)), 'a mutable accessor must hand out the stored element', n)
                # stale entries must come back as default: if the stamp differs the payload is reset
                i = ('arg', 2)
                cut = Cut(nodes=resets_data.get(i, []), conds=lambda t, pol: pol and CAN(t) == eq(i))
                p = uncut(g, g.root, exits(g), cut)
                ctx.ob('mut-reset', subj, p is None, 'hands out a mutable element that is outdated and was not reset', path=p)
        # R6 reset
        if name == 'reset':
            check_reset(ctx, g, subj, cur, data, stamps, lambda v: dflt_value(v))
    f = [f for n, f in methods(ctx, 'TimestampedVector') if n == 'new'][0]
    g = ctx.graph(f)
    for n, v, es in ret_leaves(g):
        d = dict(v[3]) if v[0] == 'agg' else {}
        dv, dd = d.get(data[2]), d.get(dflt[2])
        ok = dv is not None and dd is not None and is_call(dv, 'from_elem') and dv[2][0] == dd and dv[2][1] == ('arg', 1)
        ctx.ob('new-default', fname(f), ok, 'new() must fill the payload with the value that is kept as default', n)
        st = d.get(stamps[2])
        ctx.ob('new-default', fname(f) + ':stamps', st is not None and is_call(st, 'from_elem') and st[2][1] == ('arg', 1), 'one stamp per entry', n)


def check_reset(ctx, g, subj, cur, data, stamps, value_ok):
    cw = [(n, v) for n, pl, v in stores(g) if pl == cur]
    p = uncut(g, g.root, exits(g), Cut(nodes=[n for n, v in cw]))
    ctx.ob('reset-stamp', subj, bool(cw) and p is None, 'reset can return without changing the current stamp: all entries written before stay visible', path=p)
    refill_n, refill_e = refill_cut(g, data, value_ok)
    # alternative: all stamps overwritten by a constant different from the final stamp
    alt_n, alt_e, alt_c = [], [], None
    if stamps is not None:
        consts = {v for n, v in cw if is_const(v)}
        for c in {v for n, pl, v in stores(g) if is_const(v)} | {a for n in g.events('call') if n.d['method'] == 'fill' for a in n.d['args'][1:]}:
            if is_const(c) and all(c != k for k in consts) and consts:
                ns, es = refill_cut(g, stamps, lambda v: v == c)
                alt_n += ns
                alt_e += es
    good = False
    for n, v in cw:
        if is_const(v):
            continue
        step = step_of(v, cur)
        ctx.ob('reset-stamp', subj + ':advance', step is not None, 'the new stamp is not the old one advanced by a constant: %s' % show(v), n)
        if step is None:
            continue
        nowrap = no_wrap(v, cur, step)
        cut = Cut(nodes=refill_n + alt_n, edges=refill_e + alt_e, conds=lambda t, pol: nowrap(t, pol))
        p = both_sides(g, n, cut)
        ctx.ob('reset-wrap', subj, p is None, 'the stamp may wrap around to a value entries still carry and the entries are not reset on that path', n, p)
        good = True
    ctx.ob('reset-stamp', subj + ':exists', good, 'no advancing write of the stamp found')


def step_of(v, cur):
    """the constant the stamp is advanced by, or None"""
    v = CAN(v)
    while v[0] == 'fld' and v[2] in ('0', 'Some.0'):
        v = v[1]
    if v[0] == 'call' and tail(v) in ('overflowing_add', 'wrapping_add', 'checked_add') and v[2][0] == cur and v[2][1][0] == 'const':
        return v[2][1][1]
    if v[0] == 'bin' and v[1] == 'Add':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if a == cur and b[0] == 'const' and isinstance(b[1], int) and b[1] > 0:
                return b[1]
    return None


def no_wrap(v, cur, step):
    """recognises the conditions under which the advance did not wrap"""
    base = v
    while base[0] == 'fld':
        base = base[1]

    def ok(t, pol):
        t = CAN(t)
        if t[0] == 'fld' and t[2] == '1' and t[1] == CAN(base) and not pol:
            return True
        if t[0] == 'is' and t[1] == CAN(base) and base[0] == 'call' and tail(base) == 'checked_add':
            return (t[2] == 'Some') == pol
        if step == 1 and t[0] == 'bin' and t[1] == 'Eq' and not pol:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                # compared after the write: the field reads as its new value
                if b == ('const', 0) and (a == cur or a == CAN(v)):
                    return True
                if a == cur and b[0] == 'const' and str(b[1]) in ('MAX', str(2 ** 32 - 1)):
                    return True
        if t[0] == 'bin' and t[1] == 'Lt':
            a, b = t[2], t[3]
            if pol and a == cur and (b == CAN(v)):
                return True
            if not pol and b == cur and a == CAN(v):
                return True
            if step == 1 and pol and a == cur and b[0] == 'const' and str(b[1]) in ('MAX', str(2 ** 32 - 1)):
                return True
        return False
    return ok


def r_reset_impls(ctx):
    """Reset::reset restores DEFAULT; for containers it empties"""
    n = 0
    for f in ctx.P.funcs.values():
        if f.key.rsplit('::', 1)[-1] != 'reset' or '{closure' in f.key:
            continue
        tr = (f.impl[1] or '').split('<')[0].split('::')[-1] if f.impl else ''
        if not (tr == 'Reset' or f.key.endswith('Reset::reset')):
            continue
        g = ctx.graph(f)
        done = [m for m, pl, v in stores(g) if pl == ME and (is_const(v) and tail(str(v[1])) == 'DEFAULT' or is_call(v, 'new') and not v[2])]
        done += [m for m in g.events('call') if m.d['method'] in ('clear', 'reset') and m.d['args'] and m.d['args'][0] == ME]
        done += [m for m in g.events('call') if m.d['method'] == 'truncate' and m.d['args'] == [ME, ('const', 0)]]
        p = uncut(g, g.root, exits(g), Cut(nodes=done))
        ctx.ob('reset-default', f.key.split('<impl')[0] + (f.impl[0] if f.impl else 'default') + '::reset', p is None, 'reset does not restore the default value', path=p)
        n += 1
    ctx.floor('reset-default', 2)


# ------------------------------------------------------------------ AtomicDists
def pack(t):
    """(layout, {slot: term}) of a packed pair"""
    if t[0] == 'const':
        v = CAN(t)
        if isinstance(v[1], int):
            return 'shift', {0: ('const', v[1] & (2 ** 32 - 1)), 1: ('const', v[1] >> 32)}
    if is_call(t, 'transmute') and t[2] and t[2][0][0] == 'agg' and len(t[2][0][3]) == 2:
        return 'tuple', {0: t[2][0][3][0][1], 1: t[2][0][3][1][1]}
    c = CAN(t)
    if c[0] == 'const' and t[0] != 'const':
        return pack(c)
    if c[0] == 'bin' and c[1] in ('BitOr', 'Add', 'BitXor'):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] == 'bin' and a[1] == 'Shl' and a[3] == ('const', 32):
                return 'shift', {1: a[2], 0: b}
    return None


def unpack(t):
    """(layout, slot, packed term)"""
    if t[0] == 'fld' and is_call(t[1], 'transmute') and t[2] in ('0', '1'):
        return 'tuple', int(t[2]), t[1][2][0]
    c = CAN(t)
    if c[0] == 'bin' and c[1] == 'Shr' and c[3] == ('const', 32):
        return 'shift', 1, c[2]
    if c[0] == 'bin' and c[1] == 'BitAnd':
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if b[0] == 'const' and str(b[1]) in (str(2 ** 32 - 1), 'MAX'):
                return 'shift', 0, a
    return ('shift', 0, c)


def r_atomic(ctx):
    fs = roles(ctx, 'AtomicDists')
    cur = fl(role(fs, lambda t: t in ('u32', 'u64', 'u16', 'usize'), 'current stamp'))
    data = fl(role(fs, lambda t: 'Atomic' in t, 'payload'))
    ms = dict(methods(ctx, 'AtomicDists'))
    gs = ctx.graph(ms['set'])
    st = [(n, pl, v) for n, pl, v in stores(gs) if strip_idx(pl) and strip_idx(pl)[0] == data]
    if not st:
        raise Missing('store in AtomicDists::set')
    lay = None
    for n, pl, v in st:
        pk = pack(v)
        ok = pk is not None and set(pk[1].values()) == {('arg', 3), cur} and strip_idx(pl)[1] == ('arg', 2)
        ctx.ob('atomic-set', fname(ms['set']), ok, 'set must store the value together with the current stamp at the given index: %s' % show(v), n)
        if ok:
            lay = (pk[0], [k for k in pk[1] if pk[1][k] == ('arg', 3)][0])
    p = uncut(gs, gs.root, exits(gs), Cut(nodes=[n for n, _, _ in st]))
    ctx.ob('atomic-set', fname(ms['set']) + ':all-paths', p is None, 'set can return without storing', path=p)
    if lay is None:
        return
    gg = ctx.graph(ms['get'])
    loads = []
    seen = {'value': 0, 'inf': 0}

    def loaded(t):
        return t[0] == 'call' and tail(t) == 'load' and strip_idx(t[2][0]) == (data, ('arg', 2))

    def stamp_eq(t):
        t = t if t[0] == 'bin' else t
        if t[0] == 'bin' and t[1] == 'Eq':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                u = unpack(a)
                if b == cur and u and u[0] == lay[0] and u[1] == 1 - lay[1] and loaded(u[2]):
                    return True
        return False
    for n, v, es in ret_leaves(gg):
        if is_const(v, 'INFINITY') or CAN(v) == CAN(('const', 'INFINITY')):
            cut = Cut(conds=lambda t, pol: not pol and stamp_eq(t))
            what = 'inf'
        else:
            u = unpack(v)
            ok = u is not None and u[0] == lay[0] and u[1] == lay[1] and loaded(u[2])
            ctx.ob('atomic-get', fname(ms['get']) + ':half', ok, 'get must return the half of the packed pair that set stores the value in, at the given index: %s' % show(v), n)
            cut = Cut(conds=lambda t, pol: pol and stamp_eq(t))
            what = 'value'
        seen[what] += 1
        p = gg.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
        ctx.ob('atomic-get', '%s:%s' % (fname(ms['get']), what), p is None, 'returned although the stamp comparison does not justify it', n, p)
    ctx.ob('atomic-get', fname(ms['get']) + ':both', seen['value'] and seen['inf'], 'get must be able to return the stored value and INFINITY')

    def dv(v):
        pk = pack(v)
        return pk is not None and pk[0] == lay[0] and CAN(pk[1][lay[1]]) == CAN(('const', 'INFINITY'))
    check_reset(ctx, ctx.graph(ms['reset']), fname(ms['reset']), cur, data, None, dv)
    gn = ctx.graph(ms['new'])
    for n, v, es in ret_leaves(gn):
        d = dict(v[3]) if v[0] == 'agg' else {}
        x = d.get(data[2], ('bot',))
        ok = any(is_call(s, 'new') and s[2] and dv(s[2][0]) for s in subterms(x) if s[0] == 'call') or any(dv(s) for s in subterms(x) if s[0] in ('call', 'bin', 'const'))
        ctx.ob('new-default', fname(ms['new']), ok, 'new() must fill the vector with INFINITY', n)


# ------------------------------------------------------------------ clear lists
def r_clearlists(ctx):
    for ty in ('ClearlistVector', 'FastClearBitVec'):
        fs = roles(ctx, ty)
        if ty == 'ClearlistVector':
            data = fl(role(fs, lambda t: 'Vec<T>' in t, 'data'))
            lst = fl(role(fs, lambda t: 'Vec<usize>' in t or 'Vec<u32>' in t, 'clear list'))
            dflt = fl(role(fs, lambda t: t == 'T', 'default'))
        else:
            data = fl(role(fs, lambda t: 'Vec<u64>' in t, 'data'))
            lst = fl(role(fs, lambda t: 'Vec<usize>' in t or 'Vec<u32>' in t, 'clear list'))
            dflt = ('const', 0)

        def dv(v):
            return v == dflt or is_call(v, 'clone') and v[2][0] == dflt

        for name, f in methods(ctx, ty):
            g = ctx.graph(f)
            subj = fname(f)
            if name == 'new':
                for n, v, es in ret_leaves(g):
                    d = dict(v[3]) if v[0] == 'agg' else {}
                    x = d.get(data[2], ('bot',))
                    want = d.get(dflt[2]) if dflt[0] == 'fld' else dflt
                    ok = is_call(x, 'from_elem') and (x[2][0] == want or is_call(x[2][0], 'clone') and x[2][0][2][0] == want)
                    ctx.ob('new-default', subj, ok, 'new() must fill the vector with the default', n)
                    if ty == 'ClearlistVector':
                        ctx.ob('new-default', subj + ':size', ok and x[2][1] == ('arg', 1), 'size', n)
                    else:
                        ctx.ob('new-default', subj + ':size', ok and CAN(x[2][1]) in words_for(('arg', 1)), 'one word per started 64 keys: %s' % show(x[2][1] if ok else x), n)
                continue
            pushes = [n for n in g.events('call') if n.d['method'] == 'push' and n.d['args'][0] == lst and not n.d.get('inl')]
            # escapes: values written into data, or &mut data[i] handed out
            esc = []
            for n, pl, v in stores(g):
                c = strip_idx(pl)
                if c and c[0] == data and not dv(v):
                    esc.append((n, c[1], []))
                elif c and c[0] == data and dv(v) and name not in ('clear', 'reset'):
                    pass
            for n, v, es in ret_leaves(g):
                if f.parse().ret.lstrip().startswith('&mut'):
                    c = strip_idx(v)
                    if c and c[0] == data:
                        esc.append((n, c[1], es))
            for n, i, es in esc:
                ps = [x for x in pushes if i is not None and CAN(x.d['args'][1]) == CAN(i)]

                def dirty(t, pol):
                    t = CAN(t)
                    if t[0] == 'bin' and t[1] == 'Eq' and not pol and i is not None:
                        for a, b in ((t[2], t[3]), (t[3], t[2])):
                            if a == CAN(('idx', data, i)) and CAN(b) == CAN(dflt):
                                return True
                    return False
                cut = Cut(nodes=ps, conds=dirty)
                if es:
                    p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                else:
                    p = both_sides(g, n, cut) if n.kind != 'ret' else uncut(g, g.root, lambda x: x is n, cut)
                ctx.ob('record-dirty', subj, p is None, 'an entry can leave its default value without being recorded in the clear list', n, p)
                # recorded before the test is invalidated: the test must precede the write
                if n.kind == 'write':
                    late = [m for a, m, t, pol in edge_terms(g) if dirty(t, pol) and not pol and m.id in g.reachable([n])]
                    ctx.ob('record-dirty', subj + ':order', not late, 'the entry is compared with the default only after it has been overwritten', n)
            # emptying the list
            empt = [n for n in g.events('call') if n.d['method'] in ('clear', 'drain', 'truncate') and n.d['args'][0] == lst and not n.d.get('inl')]
            empt += [n for n, pl, v in stores(g) if pl == lst]
            rest_n, rest_e = [], []
            for el_of in (lst,):
                ns = [n for n, pl, v in stores(g) if dv(v) and strip_idx(pl) and strip_idx(pl)[0] == data and strip_idx(pl)[1] is not None and listed(strip_idx(pl)[1], lst)]
                for i in {strip_idx(n.d['place'])[1] if n.kind == 'write' else None for n in ns}:
                    cut = Cut(nodes=ns)
                    heads = loop_heads(g, lambda e, c: e == i or is_fld_of(e, i))
                    if not heads:
                        rest_n += ns
                    for h, m, out in heads:
                        if uncut(g, m, lambda x: x is h, cut) is None and uncut(g, m, exits(g), Cut(nodes=ns + [h])) is None:
                            rest_e += out
            fn_, fe_ = refill_cut(g, data, dv)
            rest_n += fn_
            rest_e += fe_
            drained = [n for n in empt if n.d.get('method') == 'drain'] if empt else []
            for n in empt:
                cut = Cut(nodes=rest_n, edges=rest_e)
                if n in drained or is_take(n):
                    p = both_sides(g, n, cut)
                else:
                    p = uncut(g, g.root, lambda x: x is n, cut)
                ctx.ob('restore-then-forget', subj, p is None, 'the clear list is emptied although not every listed entry was restored to its default', n, p)
            if name in ('reset', 'clear'):
                pops = rest_e if not empt else []
                cut = Cut(nodes=rest_n, edges=rest_e, conds=lambda t, pol: empty_list(t, pol, lst))
                p = uncut(g, g.root, exits(g), cut)
                ctx.ob('restore-all', subj, p is None, 'reset can return without having restored the listed entries', path=p)
                popped = bool(loop_heads(g, lambda e, c: tail(c) == 'pop' and c[2][0] == lst))
                p = uncut(g, g.root, exits(g), Cut(nodes=empt, edges=rest_e if popped else (), conds=lambda t, pol: empty_list(t, pol, lst)))
                ctx.ob('empty-list', subj, p is None, 'reset can return with a non-empty clear list: entries recorded earlier are reset again although they may be set', path=p)
    ctx.floor('record-dirty', 2)


def listed(i, lst):
    return any(x == lst for x in subterms(i)) and (i[0] == 'elem' or i[0] == 'fld' and i[2] == 'Some.0' or i[0] == 'idx')


def is_fld_of(e, i):
    return False


def is_take(n):
    return n.kind == 'write' or n.d.get('method') in ('take', 'replace')


def empty_list(t, pol, lst):
    t = CAN(t)
    return pol and t[0] == 'bin' and t[1] == 'Eq' and ('len', lst) in (t[2], t[3]) and ('const', 0) in (t[2], t[3])


def words_for(x):
    return {CAN(('bin', 'Div', ('bin', 'Add', x, ('const', 63)), ('const', 64))),
            CAN(('bin', 'Div', ('bin', 'Sub', ('bin', 'Add', x, ('const', 64)), ('const', 1)), ('const', 64))),
            CAN(('bin', 'Add', ('bin', 'Div', x, ('const', 64)), ('const', 1))),
            CAN(('call', 'div_ceil', (x, ('const', 64))))} | {('call', k, (x, ('const', 64))) for k in ('usize.div_ceil',)}


# ------------------------------------------------------------------ bits
def r_bits(ctx):
    for ty in ('BitVec', 'FastClearBitVec'):
        fs = roles(ctx, ty)
        data = fl(role(fs, lambda t: 'Vec<u64>' in t or 'Box<[u64]>' in t, 'words'))
        size = [n for n, t in fs if t == 'usize']
        word = CAN(('bin', 'Div', ('arg', 2), ('const', 64)))
        bit = CAN(('bin', 'Rem', ('arg', 2), ('const', 64)))
        mask = CAN(('bin', 'Shl', ('const', 1), bit))
        cell = CAN(('idx', data, word))
        W = {CAN(('bin', 'BitOr', cell, mask)): 'set'}
        nm = ('un', 'Not', mask)
        unsetv = {CAN(('bin', 'BitAnd', cell, nm))}
        for name, f in methods(ctx, ty):
            g = ctx.graph(f)
            subj = fname(f)
            if name == 'get':
                ok = True
                tested = CAN(('bin', 'Eq', ('bin', 'BitAnd', cell, mask), ('const', 0)))
                tested2 = CAN(('bin', 'BitAnd', ('bin', 'Shr', cell, bit), ('const', 1)))
                for n, v, es in ret_leaves(g):
                    c, pol = g.A.cond(v, True)
                    c = CAN(c)
                    good = (c == tested and not pol) or (c in (CAN(('bin', 'Eq', tested2, ('const', 0))),) and not pol) or (c == CAN(('bin', 'Eq', tested2, ('const', 1))) and pol) or \
                        (c == CAN(('bin', 'Eq', ('bin', 'BitAnd', cell, mask), mask)) and pol)
                    if not good and v == ('const', False):
                        # an early "not contained" is fine if justified by the word being empty or the key being out of range
                        cut = Cut(conds=lambda t, p: p and CAN(t) == CAN(('bin', 'Eq', cell, ('const', 0))) or (not p and t[0] == 'bin' and t[1] == 'Lt' and t[2] == ('arg', 2)))
                        good = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok) is None
                    ctx.ob('bit-get', subj, good, 'get must test bit key%%64 of word key/64: %s' % show(v), n)
            elif name in ('set', 'unset'):
                vals = {CAN(('bin', 'BitOr', cell, mask))} if name == 'set' else unsetv
                done = [n for n, pl, v in stores(g) if CAN(pl) == cell and CAN(v) in vals]
                other = [n for n, pl, v in stores(g) if strip_idx(pl) and strip_idx(pl)[0] == data and n not in done]
                already = CAN(('bin', 'Eq', ('bin', 'BitAnd', cell, mask), ('const', 0)))
                p = uncut(g, g.root, exits(g), Cut(nodes=done, conds=lambda t, pol: CAN(t) == already and pol == (name == 'unset')))
                ctx.ob('bit-' + name, subj, p is None and not other, '%s must change exactly bit key%%64 of word key/64 on every path' % name, other[0] if other else None, p)
            if size and name in ('get', 'set', 'unset', 'unset_all_around'):
                sz = fl(size[0])
                acc = [n for n in g.events('index') if n.d['base'] == data]
                lt = CAN(('bin', 'Lt', ('arg', 2), sz))
                p = None
                for n in acc:
                    p = p or uncut(g, g.root, lambda x: x is n, Cut(conds=lambda t, pol: pol and CAN(t) == lt))
                ctx.ob('bit-bounds', subj, p is None, 'a key outside the set is not rejected before its word is accessed', path=p)
            if name in ('clear', 'set_all', 'init'):
                if ty == 'BitVec':
                    want = ('const', 0) if name == 'clear' else None
                    okv = (lambda v: v == ('const', 0)) if name == 'clear' else (lambda v: v in (('un', 'Not', ('const', 0)), ('const', 2 ** 64 - 1), ('const', 'MAX')))
                    ns, es = refill_cut(g, data, okv)
                    p = uncut(g, g.root, exits(g), Cut(nodes=ns, edges=es))
                    ctx.ob('bit-all', subj, p is None, '%s must overwrite every word' % name, path=p)
    # iteration over set bits
    f = [f for n, f in methods(ctx, 'SetBitsIter') if n == 'next'][0]
    g = ctx.graph(f)
    fs = roles(ctx, 'SetBitsIter')
    bits = fl(role(fs, lambda t: t == 'u64', 'current word'))
    idx = fl(role(fs, lambda t: t == 'usize', 'current word index'))
    dat = fl(role(fs, lambda t: '[u64]' in t or 'Vec<u64>' in t, 'words'))
    tz = [t for n in g.events('call') if n.d['method'] == 'trailing_zeros' for t in [('call', n.d['key'], (bits,))]]
    for n, v, es in ret_leaves(g):
        if v[0] == 'agg' and v[2] == 'Some':
            t = v[3][0][1]
            c = CAN(t)
            good = c[0] == 'bin' and c[1] in ('Add', 'BitOr') and CAN(('bin', 'Mul', idx, ('const', 64))) in (c[2], c[3]) and any(is_call(x, 'trailing_zeros') and x[2][0] == bits for x in (c[2], c[3]))
            ctx.ob('bit-iter', fname(f) + ':value', good, 'the reported key must be word*64 + position of the lowest set bit: %s' % show(t), n)
            clr = [m for m, pl, w in stores(g) if pl == bits and clears_lowest(w, bits)]
            p = uncut(g, g.root, lambda x: x is n, Cut(nodes=clr))
            ctx.ob('bit-iter', fname(f) + ':progress', p is None, 'the reported bit is not removed from the current word', n, p)
        elif v[0] == 'agg' and v[2] == 'None':
            cut = Cut(conds=lambda t, pol: pol and t[0] == 'is' and t[2] == 'None' and is_call(t[1], 'next'))
            p = uncut(g, g.root, lambda x: x is n, cut)
            ctx.ob('bit-iter', fname(f) + ':end', p is None, 'iteration ends although listed words remain', n, p)
            cut = Cut(conds=lambda t, pol: pol and CAN(t) == CAN(('bin', 'Eq', bits, ('const', 0))))
            p = uncut(g, g.root, lambda x: x is n, cut)
            ctx.ob('bit-iter', fname(f) + ':end-bits', p is None, 'iteration ends although the current word has bits left', n, p)
    loads = [(n, w) for n, pl, w in stores(g) if pl == bits and not clears_lowest(w, bits)]
    for n, w in loads:
        i = strip_idx(w)
        ok = i is not None and i[0] == dat
        iw = [m for m, pl, v in stores(g) if pl == idx and ok and v == i[1]]
        p = both_sides(g, n, Cut(nodes=iw)) if ok else [n]
        ctx.ob('bit-iter', fname(f) + ':load', p is None, 'word index and word content are not advanced together', n, p)
        p = uncut(g, g.root, lambda x: x is n, Cut(conds=lambda t, pol: pol and CAN(t) == CAN(('bin', 'Eq', bits, ('const', 0)))))
        ctx.ob('bit-iter', fname(f) + ':load-empty', p is None, 'the next word is loaded although bits of the current word are left', n, p)


def clears_lowest(w, bits):
    c = CAN(w)
    if c[0] == 'bin' and c[1] == 'BitAnd' and bits in (c[2], c[3]):
        o = c[3] if c[2] == bits else c[2]
        if o == ('bin', 'Sub', bits, ('const', 1)):
            return True
        if is_call(o, 'wrapping_sub') and o[2][0] == bits and o[2][1] == ('const', 1):
            return True
        if o[0] == 'un' and o[1] == 'Not' and o[2][0] == 'bin' and o[2][1] == 'Shl' and o[2][2] == ('const', 1) and is_call(o[2][3], 'trailing_zeros') and o[2][3][2][0] == bits:
            return True
    if c[0] == 'bin' and c[1] in ('BitXor', 'Sub') and bits in (c[2], c[3]):
        o = c[3] if c[2] == bits else c[2]
        if o[0] == 'bin' and o[1] == 'Shl' and o[2] == ('const', 1) and is_call(o[3], 'trailing_zeros') and o[3][2][0] == bits:
            return True
    return False


# ------------------------------------------------------------------ rank select map
def r_rank_map(ctx):
    ms = dict(methods(ctx, 'RankSelectMap'))
    g = ctx.graph(ms['get'])
    ga = ctx.graph(ms['at'])
    at = {show(CAN(v), 60) for n, v, es in ret_leaves(ga)}
    contains = None
    for n, v, es in ret_leaves(g):
        if v[0] == 'agg' and v[2] == 'Some':
            ctx.ob('rank-agree', fname(ms['get']), show(CAN(v[3][0][1]), 60) in at, 'get and at disagree on the rank of a contained key', n)
            for gg, nn, ee, f in ((g, n, es, ms['get']),):
                key_guard(ctx, gg, nn, ee, f)
        elif v[0] == 'agg' and v[2] == 'None':
            cut = Cut(conds=lambda t, pol: key_cond(t, pol, False))
            p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
            ctx.ob('rank-none', fname(ms['get']), p is None, 'get answers None for a key that was not found to be absent', n, p)
    for n, v, es in ret_leaves(ga):
        key_guard(ctx, ga, n, es, ms['at'])


BW = ('fld', ('arg', 1), 'contained_keys_flags')


def key_cond(t, pol, want):
    """(contained) == want established by this condition"""
    c = CAN(t)
    if c[0] == 'bin' and c[1] == 'Lt' and c[2] == ('arg', 2):
        return not want and not pol
    if c[0] == 'bin' and c[1] == 'Eq' and ('const', 0) in (c[2], c[3]):
        o = c[3] if c[2] == ('const', 0) else c[2]
        if o[0] == 'bin' and o[1] == 'BitAnd' and any(x[0] == 'bin' and x[1] == 'Shl' and x[2] == ('const', 1) for x in (o[2], o[3])) and mentions(o, ('arg', 2)):
            return pol == (not want)
    return False


def key_guard(ctx, g, n, es, f):
    cut = Cut(conds=lambda t, pol: key_cond(t, pol, True))
    p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
    ctx.ob('rank-contained', fname(f), p is None, 'a rank is returned for a key that was not found to be contained', n, p)


# ------------------------------------------------------------------ sentinel options
def r_sentinel(ctx):
    n_ = 0
    for f in ctx.P.funcs.values():
        if '{closure' in f.key or 'in_range_option' not in f.key or f.impl is None:
            continue
        tr = (f.impl[1] or '').split('<')[0].split('::')[-1]
        if tr in ('Debug', 'Clone', 'PartialEq', 'Default'):
            continue
        g = ctx.graph(f)
        name = f.key.rsplit('::', 1)[-1]

        def is_sent(t):
            return t[0] in ('const', 'fnitem') and tail(str(t[1])) == 'SENTINEL'

        def sent(x):
            def c(t, pol):
                return not pol and t[0] == 'bin' and t[1] == 'Eq' and ((t[2] == x and is_sent(t[3])) or (t[3] == x and is_sent(t[2])))
            return c
        for n, v, es in ret_leaves(g):
            if v[0] != 'agg':
                if name == 'value':
                    # bool::then_some and friends
                    ok = is_call(v, 'filter') or is_call(v, 'then_some') or is_call(v, 'then')
                    ctx.ob('sentinel', fname(f), ok, 'unrecognised value()', n)
                continue
            if v[1].endswith('InRangeOption'):
                x = v[3][0][1]
                if is_sent(x):
                    if name in ('some',):
                        ctx.ob('sentinel', fname(f), False, 'some() must not produce the empty option', n)
                    elif f.parse().args:
                        cut = Cut(conds=lambda t, pol: t[0] == 'is' and t[1] == ('arg', 1) and (t[2] == 'None') == pol)
                        p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                        ctx.ob('sentinel', fname(f) + ':none', p is None, 'a present value becomes the empty option', n, p)
                    continue
                if x[0] in ('arg', 'fld'):
                    cut = Cut(conds=sent(x))
                    p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                    ctx.ob('sentinel', fname(f), p is None, 'a value equal to the sentinel is accepted and silently becomes "absent"', n, p)
                    n_ += 1
            elif v[1] == 'Option' and v[2] == 'Some' and name == 'value':
                x = v[3][0][1]
                cut = Cut(conds=sent(x))
                p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                ctx.ob('sentinel', fname(f), p is None, 'value() returns Some of the sentinel', n, p)
                n_ += 1
            elif v[1] == 'Option' and v[2] == 'None' and name == 'value':
                cut = Cut(conds=lambda t, pol: pol and t[0] == 'bin' and t[1] == 'Eq' and (is_sent(t[2]) or is_sent(t[3])))
                p = g.path_via(es, n, avoid=cut.node, edge_ok=cut.edge_ok)
                ctx.ob('sentinel', fname(f) + ':none', p is None, 'value() returns None for a value that was not found to be the sentinel', n, p)
                n_ += 1
    ctx.floor('sentinel', 4)


RULES = [('timestamped', r_timestamped), ('reset-impls', r_reset_impls), ('atomic', r_atomic), ('clearlists', r_clearlists), ('bits', r_bits), ('rank-map', r_rank_map), ('sentinel', r_sentinel)]
