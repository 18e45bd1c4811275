"""Tentative distances, parent pointers and meeting nodes change together."""
import re
from core import show, subterms
from framework import fname, Missing
from rules import tail, stores, strip_idx, Canon, uncut, Cut
from flow import coupled, walk, heads_of, ends, natural_loops

ID = 'C07'
CRATES = 'engine'

PARENT = re.compile(r'(^|_)(predecessors?|parents?)$')
MEET = re.compile(r'(^|_)meeting_node$')


def last_field(t):
    while t[0] in ('idx', 'elem', 'iter'):
        t = t[1]
    return t[2] if t[0] == 'fld' and isinstance(t[2], str) else ''


def parent_events(g):
    """[(node, container, index, parent value)]"""
    res = []
    for n, pl, v in stores(g):
        p = pl
        if p[0] == 'fld' and p[2] == '0' and p[1][0] == 'idx':
            p = p[1]
        elif p[0] == 'fld':
            continue
        if p[0] == 'idx' and PARENT.search(last_field(p[1])):
            if v[0] == 'agg' and v[3]:
                v = v[3][0][1]
            res.append((n, p[1], p[2], v))
    for n in g.events('call'):
        a = n.d['args']
        if not n.d.get('inl') and n.d['method'] == 'store' and len(a) == 4:
            res.append((n, a[0], a[1], a[2]))
    return res


def unwrap(t):
    while t[0] == 'agg' and len(t[3]) == 1:
        t = t[3][0][1]
    while t[0] == 'call' and tail(t) in ('some', 'clone') and len(t[2]) == 1:
        t = t[2][0]
    return t


def phi_group(g, p):
    """the variables a phi is connected with by plain copies"""
    byp = getattr(g, '_pg', None)
    if byp is None:
        byp = {}
        for e, d in g.assigns.items():
            if e[0] in g.reach:
                for q, v in d.items():
                    if v[0] == 'phi':
                        byp.setdefault(q, set()).add(v)
                        byp.setdefault(v, set()).add(q)
        g._pg = byp
    seen = {p}
    st = [p]
    while st:
        for y in byp.get(st.pop(), ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def group_updates(g, grp):
    """[(edge, value)]: the variables of the group get a new value on these edges"""
    res = []
    for e, d in g.assigns.items():
        if e[0] in g.reach:
            for q, v in d.items():
                if q in grp and v[0] != 'phi':
                    res.append((e, v))
    return res


def label_candidates(g, cont, index):
    """{kind: [(event, new value, old label)]}: groups of events that change a label at `index` of another container"""
    res = {}
    local = {}
    for n, m, t, pol in merge_tests(g):
        call = t[1] if t[0] == 'is' else t
        if call[2][1][0] == 'loc':
            local.setdefault(call[2][1], []).append(((n.id, m.id), call[2][2]))
    for n, pl, v in stores(g):
        p = pl
        if p[0] == 'idx' and p[2] == index and p[1] != cont and not PARENT.search(last_field(p[1])):
            u = unwrap(v)
            loc = [x for x in subterms(v) if x in local]
            if loc:
                # merged into a local copy first, then written back
                es = {e for e, _ in local[loc[0]]}
                if not any(walk(g, s, {n.id}, set(), es) for s in [g.root] + [g.byid()[h] for h in heads_of(g, n.id)]):
                    for _, x in local[loc[0]]:
                        res.setdefault(('merge', p[1]), []).append((n, x, pl))
                    continue
            if u[0] == 'phi':
                grp = phi_group(g, u)
                ups = [(e, x) for e, x in group_updates(g, grp) if not (x[0] == 'const' or (x[0] == 'idx' and x[2] == index))]
                if ups:
                    res.setdefault(('phi', p[1], u), []).extend([(e, x, u) for e, x in ups])
                    continue
            res.setdefault(('st', p[1]), []).append((n, v, pl))
    for n, m, t, pol in merge_tests(g):
        call = t[1] if t[0] == 'is' else t
        lab = call[2][1]
        if lab[0] == 'idx' and lab[2] == index:
            res.setdefault(('merge', lab[1]), []).append(((n.id, m.id), call[2][2], lab))
    return res


def merge_tests(g):
    """edges on which a call of `merge` has reported that the label was improved"""
    if hasattr(g, '_mt'):
        return g._mt
    res = []
    for n in g.nodes:
        if n.id in g.reach:
            for m, c in n.succ:
                for t, pol in c:
                    call = t[1] if t[0] == 'is' else t
                    if call[0] == 'call' and tail(call) == 'merge' and len(call[2]) == 3 and pol and (t[0] != 'is' or t[2] == 'Some'):
                        res.append((n, m, t, pol))
    g._mt = res
    return res


def less_than(t, pol, val, cur, c, eqok=False):
    """does the condition say val < cur"""
    if t[0] == 'bin' and t[1] in ('Lt', 'Gt', 'Le', 'Ge'):
        op, a, b = t[1], t[2], t[3]
    elif t[0] == 'call' and tail(t) in ('lt', 'gt', 'le', 'ge') and len(t[2]) == 2:
        op, a, b = tail(t).capitalize(), t[2][0], t[2][1]
    else:
        return False
    if op in ('Gt', 'Ge'):
        a, b = b, a
        op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
    if not pol:
        a, b = b, a
        op = {'Lt': 'Le', 'Le': 'Lt'}[op]
    return (op == 'Lt' or eqok) and eq(a, val, c) and (any(eq(b, x, c) for x in cur))


def eq(a, b, c):
    return c(unwrap(a)) == c(unwrap(b))


def strict(g, ev, val, cur, c, eqok=False):
    """every path of the iteration to the event has compared val < cur; None or counterexample"""
    na, nb = ends(g, ev)
    es = set()
    for n in g.nodes:
        if n.id in g.reach:
            for m, cc in n.succ:
                if any(less_than(t, pol, val, cur, c, eqok) for t, pol in cc):
                    es.add((n.id, m.id))
    by = g.byid()
    if isinstance(ev, tuple) and ev in es:
        return None
    for s in [g.root] + [by[h] for h in heads_of(g, na.id)]:
        if s is na:
            return [na]
        p = walk(g, s, {na.id}, set(), es)
        if p:
            return p
    return None


TYPES = ['DijkstraRun', 'MultiCritDijkstraRun', 'TopoDijkstraRun', 'SendTopoDijkstraRun', 'EliminationTreeWalk', 'CCHPotentialWithPathUnpacking']


def roots(ctx, names):
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if f.impl is None or '{closure' in f.key:
            continue
        t = f.impl[0].split('<')[0].split('::')[-1].strip().lstrip('&')
        if t in names:
            yield t, f


def rule_parents(ctx):
    c = Canon()
    per = {}
    todo = [(t, f) for t, f in roots(ctx, TYPES)]
    todo += [('catchup', f) for f in ctx.P.funcs.values() if '{closure' not in f.key and fname(f) == 'algo::catchup::Server::distance']
    for ty, f in todo:
        if fname(f).split('::')[-1] in ('unpack_path', 'path', 'fmt', 'unpack_node_path'):
            continue
        g = ctx.graph(f)
        ps = parent_events(g)
        n = 0
        for (node, cont, ix, v) in ps:
            cands = label_candidates(g, cont, ix)
            subj = '%s %s' % (fname(f), show(('idx', cont, ix))[:80])
            if not cands:
                ctx.ob('parent-has-label', subj, False, 'parent of %s is written but no distance of the same node is' % show(ix)[:120], node)
                continue
            n += 1
            bad = None
            okc = None
            # every container of distances that is updated in the same iteration
            for key, evs in sorted(cands.items(), key=repr):
                p = coupled(g, node, [e for e, _, _ in evs])
                if p is None:
                    okc = (key, evs)
                    break
                bad = p
            if okc is None:
                ctx.ob('parent-with-label', subj, False, 'a parent is written in an iteration that leaves the distance of the node as it was', node, bad)
                continue
            ctx.ob('parent-with-label', subj, True, '', node)
            key, evs = okc
            pn = [(x[0]) for x in ps if x[1] == cont and x[2] == ix]
            for e, val, lab in evs:
                if val[0] == 'const':
                    continue
                q = coupled(g, e, pn)
                ctx.ob('label-with-parent', subj, q is None, 'a distance is lowered in an iteration that leaves the parent of the node as it was', ends(g, e)[0], q)
                init = eq(v, ix, c)
                if init:
                    continue            # search start: its own parent
                # the distance of the parent is part of the new label
                D = key[1]
                okv = holds(g, (val, v), lambda x, y: links_from(g, x, D, comp0(g.A, y), c))
                ctx.ob('label-through-parent', subj, okv, 'the new distance %s is not computed from the distance of the stored parent %s' % (show(val)[:160], show(v)[:100]), node)
                if key[0] == 'st':
                    r = strict(g, e, val, [lab], c)
                    ctx.ob('only-improvements', subj, r is None, 'the distance and parent are replaced without a strict improvement', ends(g, e)[0], r)
                elif key[0] == 'phi':
                    r = strict(g, e, val, list(phi_group(g, lab)), c)
                    ctx.ob('only-improvements', subj, r is None, 'the distance and parent are replaced without a strict improvement', ends(g, e)[0], r)
        if n:
            per[ty] = per.get(ty, 0) + n
    for ty in TYPES + ['catchup']:
        ctx.ob('parents-found', ty, per.get(ty, 0) >= 1, 'no parent update found in %s' % ty)


def edge_of(e, t, c):
    """e is an arc that leaves t: an element of an enumeration of the arcs of t"""
    for x in subterms(e):
        if x[0] == 'elem':
            for y in subterms(x[1]):
                if y[0] == 'call' and len(y[2]) >= 2 and eq(y[2][1], t, c):
                    return True
    return False


def links_from(g, val, D, n, c):
    """val is computed from D[n]"""
    for x in subterms(val):
        if x[0] == 'idx' and x[1] == D and eq(x[2], n, c):
            return True
        if x[0] == 'call' and tail(x) == 'link' and any(eq(a, n, c) for a in x[2]):
            return True
    return False


def subst(A, t, x, y):
    if t == x:
        return y
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'fld':
        return A.fld(subst(A, t[1], x, y), t[2])
    return tuple(subst(A, s, x, y) if isinstance(s, tuple) else s for s in t)


def expansions(g, ts):
    """for each record / variable the terms depend on: the tuple of terms with it replaced by each of the values it can hold"""
    A = g.A
    done = set()
    for t in ts:
        for x in [t] + list(subterms(t)):
            vals = None
            if x in done:
                continue
            if x[0] == 'call' and tail(x) in ('old', 'take') and x[2]:
                vals = [v for n, pl, v in stores(g) if pl == x[2][0] and v[0] == 'agg' and v[3]]
            elif x[0] == 'phi':
                vals = [v for v in A.alternatives(x) if v[0] not in ('phi', 'const') and not (v[0] == 'agg' and not v[3])]
            if vals:
                done.add(x)
                yield sorted({tuple(subst(A, u, x, v) for u in ts) for v in vals}, key=repr)


def holds(g, ts, pred, depth=3):
    """pred holds for every combination of values the terms can stand for"""
    if pred(*ts):
        return True
    if depth == 0:
        return False
    return any(all(holds(g, r, pred, depth - 1) for r in ex) for ex in expansions(g, ts))


def first(t):
    while t[0] == 'agg' and t[3]:
        t = t[3][0][1]
    return t


def comp0(A, t):
    return first(t) if t[0] == 'agg' else t


# ------------------------------------------------------------------ label algebra of the searches
def rooted(t, base):
    while t[0] in ('fld', 'idx', 'elem', 'iter'):
        t = t[1]
    return t == base


def rule_merge(ctx):
    c = Canon()
    n = 0
    for f in sorted(ctx.P.funcs.values(), key=lambda f: f.key):
        if f.impl is None or '{closure' in f.key or f.key.rsplit('::', 1)[-1] != 'merge' or not re.search('DijkstraOps', f.impl[1] or ''):
            continue
        n += 1
        subj = fname(f) + ' for ' + f.impl[0][:60]
        g = ctx.graph(f)
        A2, A3 = ('arg', 2), ('arg', 3)
        ws = [(x, x.d['args'][-1]) for x in g.events('call') if x.d['method'] in ('push', 'insert') and x.d['args'] and rooted(x.d['args'][0], A2)]
        ws = ws or [(x, v) for x, pl, v in stores(g) if rooted(pl, A2)]
        wn = {x.id for x, _ in ws}
        rets = [r for r in g.events('ret') if r.ctx == 0]
        deleg = False
        for r in rets:
            v = r.d['value']
            if v[0] == 'call' and tail(v) == 'merge':
                deleg = True
                ctx.ob('merge-reports', subj, v[2][-2:] == (A2, A3), 'delegates with other arguments: %s' % show(v)[:200], r)
                continue
            for val, edges in g.cases(v):
                yes = val == ('const', True) or (val[0] == 'agg' and val[2] == 'Some')
                no = val == ('const', False) or (val[0] == 'agg' and val[2] == 'None')
                if yes:
                    p = g.path_via(edges, r, avoid=lambda x: x.id in wn)
                    ctx.ob('merge-reports', subj, p is None, 'reports an improvement without having changed the label', r, p)
                elif no:
                    bad = None
                    for x, _ in ws:
                        rc = g.reachable([x])
                        if all(e[1][0] in rc for e in edges) and r.id in rc:
                            bad = x
                    ctx.ob('merge-reports', subj, bad is None, 'changes the label and reports no improvement', bad or r)
                else:
                    # the comparison itself is returned
                    es = {(a.id, b.id) for a in g.nodes if a.id in g.reach for b, cc in a.succ if any(t == val and not pol for t, pol in cc)}
                    p = walk(g, g.root, {r.id}, wn, es)
                    ctx.ob('merge-reports', subj, bool(es) and p is None, 'the reported improvement %s is not tied to the change of the label' % show(val)[:100], r, p)
        if not deleg:
            ctx.ob('merge-stores', subj, bool(ws), 'never stores the linked label')
        for x, v in ws:
            if x.kind == 'write':
                ctx.ob('merge-stores', subj, v == A3, 'stores %s instead of the linked label' % show(v)[:120], x)
                r = strict(g, x, A3, [A2], c)
                ctx.ob('merge-strict', subj, r is None, 'replaces the label without a strict improvement', x, r)
            else:
                ctx.ob('merge-stores', subj, any(y == A3 for y in subterms(v)), 'stores %s instead of the linked label' % show(v)[:120], x)
    ctx.ob('merges-found', 'impls', n >= 8, 'only %d implementations of merge found' % n)


def rule_links(ctx):
    """tail, label and arc given to `link` belong together"""
    c = Canon()
    k = 0
    for t, f in roots(ctx, ['DijkstraRun', 'MultiCritDijkstraRun', 'TopoDijkstraRun', 'SendTopoDijkstraRun']):
        if ctx.private(f) or fname(f).split('::')[-1] in ('fmt',):
            continue
        g = ctx.graph(f)
        linked = [(t[1] if t[0] == 'is' else t)[2][2] for _, _, t, _ in merge_tests(g)]
        for n in g.events('call'):
            a = n.d['args']
            if n.d['method'] != 'link' or not re.search('DijkstraOps', n.d.get('trait') or ''):
                continue
            if len(a) == 6:
                ta, la, e = a[3], a[4], a[5]
            elif len(a) == 8:
                ta, la, e = a[4], None, a[7]
            else:
                ctx.ob('link-shape', fname(f), False, 'link is called with %d arguments' % len(a), n)
                continue
            k += 1
            ta = unwrap(ta)
            subj = '%s link(%s)' % (fname(f), show(ta)[:60])

            def ok(x, y, z):
                return (y is None or any(w[0] == 'idx' and eq(w[2], x, c) for w in subterms(y)) or y in linked) and edge_of(z, x, c)
            if la is None:
                r = holds(g, (ta, e), lambda x, z: ok(x, None, z))
            else:
                r = holds(g, (ta, la, e), ok)
            ctx.ob('link-consistent', subj, r, 'the tail %s, the label %s and the arc %s handed to link do not belong together' % (show(ta)[:80], show(la or ta)[:80], show(e)[:80]), n)
    ctx.ob('links-found', 'calls', k >= 12, 'only %d calls of link found' % k)


def rule_requeue(ctx):
    """an improved label is (re)queued with a key computed from it, unless the search is told not to"""
    c = Canon()
    k = 0
    todo = [(t, f) for t, f in roots(ctx, ['DijkstraRun', 'MultiCritDijkstraRun', 'TopoDijkstraRun', 'SendTopoDijkstraRun']) if not ctx.private(f)]
    todo += [('catchup', f) for f in ctx.P.funcs.values() if '{closure' not in f.key and fname(f) == 'algo::catchup::Server::distance']
    for ty, f in todo:
        g = ctx.graph(f)
        qs = [n for n in g.events('call') if n.d['method'] in ('push', 'decrease_key', 'update_key', 'push_unless_present') and re.search('IndexdMinHeap', n.d['key'] + str(n.d.get('tys')))]
        ps = parent_events(g)
        if not qs:
            continue
        labels = [(n, pl, v) for n, pl, v in stores(g) if not PARENT.search(last_field(pl)) and 'queue' not in show(pl)]
        pushed = [(n, n.d['args'][0], n.d['args'][1]) for n in g.events('call') if n.d['method'] == 'push' and len(n.d['args']) == 2 and 'queue' not in show(n.d['args'][0])]
        labels += [x for x in pushed if x[1][0] == 'idx']
        labels += [(n, pl, x[2]) for n, pl, v in stores(g) for x in pushed if v == x[1]]
        local = {}
        for a, b, t, pol in merge_tests(g):
            cl = t[1] if t[0] == 'is' else t
            if cl[2][1][0] == 'loc':
                local.setdefault(cl[2][1], []).append(cl[2][2])
        # the key of the queue entry
        for q in qs:
            st = q.d['args'][-1]
            if st[0] != 'agg':
                continue
            d = dict(st[3])
            if 'node' not in d or 'key' not in d:
                continue
            k += 1
            node, key = d['node'], d['key']

            def okkey(ky, nd):
                if any(x[0] == 'idx' and eq(x[2], nd, c) and not PARENT.search(last_field(x[1])) for x in subterms(ky)):
                    return True
                # or from the value that has just been stored as the distance of the node
                vs = set()
                for _, pl, v in labels:
                    if pl[0] == 'idx' and eq(pl[2], nd, c):
                        vs |= {x for x in [v] + list(subterms(v)) if x[0] in ('fld', 'loc', 'call', 'bin', 'phi')} - {nd}
                        vs.add(unwrap(v))
                        for x in list(vs):
                            vs |= set(local.get(x, ()))
                if any(x in vs and x[0] != 'const' for x in subterms(ky)):
                    return True
                # or from the improvement reported by merge
                for a, b, t, pol in merge_tests(g):
                    cl = t[1] if t[0] == 'is' else t
                    if cl[2][1][0] == 'idx' and eq(cl[2][1][2], nd, c) and any(x == cl for x in subterms(ky)):
                        return True
                return False
            r = holds(g, (key, node), okkey) or okkey(key, node)
            ctx.ob('queue-key', '%s %s' % (fname(f), show(node)[:60]), r, 'queue key %s of node %s is not computed from the distance of that node' % (show(key)[:160], show(node)[:80]), q)
        if ty in ('DijkstraRun', 'MultiCritDijkstraRun', 'catchup'):
            qn = {q.id for q in qs}

            def refused(t, pol):
                if t[0] == 'callfn' or (t[0] == 'call' and tail(t) in ('callfn', 'call_mut')):
                    return not pol
                if t[0] == 'is' and t[1][0] in ('callfn', 'call', 'phi'):
                    return (t[2] == 'None') == pol
                if t[0] == 'bin' and t[1] in ('Lt', 'Le', 'Gt', 'Ge') and 'queue' in show(t):
                    return True
                return False
            es = {(a.id, b.id) for a in g.nodes if a.id in g.reach for b, cc in a.succ if any(refused(t, pol) for t, pol in cc)}
            for p in ps:
                if eq(p[3], p[2], c):
                    continue
                stops = {x.id for x in g.exits} | set(heads_of(g, p[0].id))
                w = walk(g, p[0], stops, qn, es)
                ctx.ob('improved-is-queued', '%s %s' % (fname(f), show(p[2])[:60]), w is None, 'a lowered distance is not put into the queue', p[0], w)
    ctx.ob('queues-found', 'entries', k >= 12, 'only %d queue insertions found' % k)


def rule_store_impl(ctx):
    fs = [f for f in ctx.P.funcs.values() if f.impl and '{closure' not in f.key and f.key.rsplit('::', 1)[-1] == 'store' and re.search(r'Parent', f.impl[1] or '')]
    if not fs:
        raise Missing('no implementation of the parent storage trait')
    for f in fs:
        g = ctx.graph(f)
        ws = stores(g)
        subj = f.impl[0][:60]
        if not ws:
            ctx.ob('parent-storage', subj, True)
            continue
        got = {}
        for n, pl, v in ws:
            if pl[0] == 'fld' and pl[1][0] == 'idx' and pl[1][2] == ('arg', 2):
                got[pl[2]] = v
            elif pl[0] == 'idx' and pl[2] == ('arg', 2) and v[0] == 'agg':
                got.update(dict(v[3]))
        ok = got.get('0') == ('arg', 3) and unwrap(got.get('1', ('x',))) == ('arg', 4)
        ctx.ob('parent-storage', subj, ok and uncut(g, g.root, lambda x: x.kind == 'ret' and x.ctx == 0, Cut(nodes=[w[0] for w in ws])) is None, 'does not store (parent, arc) under the node: %s' % ', '.join('%s:=%s' % (a, show(b)) for a, b in got.items()), ws[0][0])


# ------------------------------------------------------------------ meeting nodes
MEETING = ['algo::contraction_hierarchy::query::Server::distance', 'algo::customizable_contraction_hierarchy::query::Server::distance',
           'algo::dijkstra::query::bidirectional_dijkstra::Server::distance_with_cap', 'algo::ch_potentials::query::BiDirSkipLowDegRunner::distance']
FW = re.compile(r'(^|_)(forward|fw)(_|$)')
BW = re.compile(r'(^|_)(backward|bw)(_|$)')


def side(t):
    s = set()
    while t[0] in ('fld', 'idx', 'elem', 'iter'):
        if t[0] == 'fld' and isinstance(t[2], str):
            if FW.search(t[2]):
                s.add('fw')
            if BW.search(t[2]):
                s.add('bw')
        t = t[1]
    return s.pop() if len(s) == 1 else None


def rule_meeting(ctx):
    c = Canon()
    for name in MEETING:
        fs = [f for f in ctx.P.funcs.values() if '{closure' not in f.key and fname(f) == name]
        if not fs:
            raise Missing(name)
        for f in fs:
            g = ctx.graph(f)
            ms = [(n, v) for n, pl, v in stores(g) if MEET.search(last_field(pl)) and v[0] != 'const']
            ctx.ob('meeting-found', name, len(ms) >= 1, 'no meeting node is recorded')
            # candidates for the tentative distance: cells / variables that receive sums of two distances of one node
            cells = {}
            allst = {}
            for n, pl, v in stores(g):
                if pl[0] in ('loc', 'fld') and v[0] not in ('agg',):
                    allst.setdefault(pl, []).append((n, v))
            for cell, us in allst.items():
                if any(sum2(v) for _, v in us):
                    cells[cell] = ([(n, v) for n, v in us if v[0] != 'const'], [cell])
            done = set()
            for e, d in list(g.assigns.items()):
                if e[0] not in g.reach:
                    continue
                for p, v in d.items():
                    if p[0] == 'phi' and sum2(v) and p not in done:
                        grp = phi_group(g, p)
                        done |= grp
                        cells[('grp', min(grp))] = ([(x, y) for x, y in group_updates(g, grp) if y[0] != 'const'], list(grp))
            ctx.ob('tentative-found', name, len(cells) >= 1, 'no tentative distance found')
            rets = [(r, first(r.d['value'])) for r in g.events('ret') if r.d['value'][0] == 'agg' and r.d['value'][2] == 'Some']
            for r, v in list(rets):
                if v[0] == 'phi':
                    rets += group_updates(g, phi_group(g, v))
            rets = [(r, v) for r, v in rets if v[0] == 'idx']
            for n, v in ms:
                subj = '%s %s' % (name, show(v)[:60])
                best = None
                for key, (us, cur) in cells.items():
                    evs = [e for e, val in us if any(x[0] == 'idx' and eq(x[2], v, c) for x in subterms(val))]
                    evs += [r for r, rv in rets if eq(rv[2], v, c)]
                    p = coupled(g, n, evs)
                    if p is None:
                        best = None
                        break
                    best = p
                else:
                    p = best
                ctx.ob('meeting-with-distance', subj, p is None, 'a meeting node is recorded without its distance becoming the tentative one', n, p)
            for e, v in rets:
                if side(v[1]):
                    q = coupled(g, e, [n for n, x in ms if eq(x, v[2], c)])
                    ctx.ob('answer-with-meeting', '%s %s' % (name, show(v)[:90]), q is None, 'a distance is answered without recording where its path meets', ends(g, e)[0], q)
            for key, (us, cur) in cells.items():
                for e, val in us:
                    subj = '%s %s' % (name, show(val)[:90])
                    at = ends(g, e)[0]
                    ixs = [x for x in subterms(val) if x[0] == 'idx' and side(x[1])]
                    ix = {repr(c(x[2])) for x in ixs}
                    if len(ix) != 1:
                        ctx.ob('one-node', subj, False, 'the tentative distance combines distances of %d nodes' % len(ix), at)
                        continue
                    if sum2(val):
                        sd = {side(x[1]) for x in ixs}
                        ctx.ob('both-directions', subj, sd == {'fw', 'bw'}, 'the tentative distance is not the sum of a forward and a backward distance', at)
                    q = coupled(g, e, [n for n, v in ms if eq(v, ixs[0][2], c)])
                    ctx.ob('distance-with-meeting', subj, q is None, 'the tentative distance changes in a step that does not record the meeting node', at, q)
                    r = strict(g, e, val, cur, c, eqok=True)
                    ctx.ob('tentative-decreases', subj, r is None, 'the tentative distance is replaced without being compared', at, r)


def sum2(v):
    return v[0] == 'bin' and v[1] == 'Add' and v[2][0] == 'idx' and v[3][0] == 'idx'


RULES = [('parents', rule_parents), ('merge', rule_merge), ('links', rule_links), ('requeue', rule_requeue), ('store', rule_store_impl), ('meeting', rule_meeting)]
EXPLANATION = ('The settle and relaxation functions of all searches are expanded into event graphs with their helpers and closures inlined. For every store into a parent array the rules find the stores (or merge calls) which change the distance of the same node and show, '
               'on all paths between the heads of the loops around them, that neither happens without the other, that it is guarded by a strict comparison with the old distance, that the new distance is computed from the distance of the stored parent, and that the queue entry made afterwards is computed from the new distance. '
               'All implementations of merge, all calls of link (tail, label and arc belong together) and the meeting node updates of the bidirectional searches are decided in the same way.')
ASSUMPTIONS = ['parent arrays and meeting nodes are recognised by their field names', 'labels are totally ordered by <']
