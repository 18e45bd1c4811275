"""Iteration structure of an event graph (dominators, natural loops) and the `coupled` query: two kinds of
events happen in the same iteration or not at all."""
from core import subterms


def order(g):
    """reverse postorder of the reachable nodes"""
    seen = {g.root.id}
    post = []
    st = [(g.root, iter([m for m, _ in g.root.succ]))]
    while st:
        n, it = st[-1]
        for m in it:
            if m.id not in seen:
                seen.add(m.id)
                st.append((m, iter([x for x, _ in m.succ])))
                break
        else:
            post.append(n)
            st.pop()
    return post[::-1]


def dominators(g):
    if hasattr(g, '_idom'):
        return g._idom, g._rpo
    rpo = order(g)
    num = {n.id: i for i, n in enumerate(rpo)}
    preds = {n.id: [] for n in rpo}
    for n in rpo:
        for m, _ in n.succ:
            preds[m.id].append(n.id)
    idom = {rpo[0].id: rpo[0].id}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in preds[n.id]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n.id) != new:
                idom[n.id] = new
                ch = True
    g._idom, g._rpo, g._preds = idom, num, preds
    return idom, num


def dominates(g, a, b):
    idom, num = dominators(g)
    while num[b] > num[a]:
        b = idom[b]
    return a == b


def natural_loops(g):
    """{head id: set of node ids of the loop}"""
    if hasattr(g, '_loops'):
        return g._loops
    idom, num = dominators(g)
    loops = {}
    for n in g.nodes:
        if n.id not in num:
            continue
        for m, _ in n.succ:
            if num[m.id] <= num[n.id] and dominates(g, m.id, n.id):
                body = loops.setdefault(m.id, {m.id})
                st = [n.id]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += g._preds[x]
    g._loops = loops
    return loops


def heads_of(g, nid):
    """ids of the heads of the loops around a node, innermost first"""
    ls = natural_loops(g)
    return sorted([h for h, b in ls.items() if nid in b], key=lambda h: len(ls[h]))


# ------------------------------------------------------------------ events: a node, or an edge (a.id, b.id)
def ends(g, ev):
    """(node the event is reached at, node it continues from)"""
    if isinstance(ev, tuple):
        by = g.byid()
        return by[ev[0]], by[ev[1]]
    return ev, ev


def must_conds(g, starts, ev):
    """conditions on values that do not change (calls, phis) which hold on every path starts -> ev"""
    a, _ = ends(g, ev)
    res = {}
    for n in g.nodes:
        if n.id not in g.reach:
            continue
        for m, c in n.succ:
            for t, pol in c:
                if t[0] in ('call', 'callfn', 'phi') or (t[0] == 'is' and t[1][0] in ('call', 'phi')):
                    res.setdefault((t, pol), []).append((n.id, m.id))
    tests = {}
    for (t, pol), es in res.items():
        tests.setdefault(t, set()).update(x for x, _ in es)
    out = []
    for k, es in res.items():
        if len(tests[k[0]]) < 2:
            continue
        if (k[0], not k[1]) in out:
            continue
        es = set(es)
        if not any(walk(g, s, {a.id}, set(), es) for s in starts):
            out.append(k)
    return out


def walk(g, start, goals, cutn, cute, bad=(), cond_ok=None):
    """path start ->+ goal nodes avoiding nodes / edges, or None (start itself is not a goal unless reached again)"""
    prev = {}
    q = [start]
    i = 0
    while i < len(q):
        n = q[i]
        i += 1
        for m, c in n.succ:
            if m.id in prev or (n.id, m.id) in cute:
                continue
            if cond_ok is not None and not cond_ok(c):
                continue
            if m.id in goals:
                p = [m, n]
                while p[-1] is not start:
                    p.append(prev[p[-1].id])
                return p[::-1]
            if m.id in cutn:
                continue
            prev[m.id] = n
            q.append(m)
    return None


def coupled(g, a, bs, before=True, after=True, boundary=None):
    """None if every iteration that performs event `a` also performs one of the events `bs`
    (before or after it); otherwise a counterexample path"""
    na, nb = ends(g, a)
    bn = {b.id for b in bs if not isinstance(b, tuple)}
    be = {b for b in bs if isinstance(b, tuple)}
    if (not isinstance(a, tuple) and a.id in bn) or (isinstance(a, tuple) and a in be):
        return None
    by = g.byid()
    heads = heads_of(g, na.id) if boundary is None else [h for h in heads_of(g, na.id) if h in boundary]
    starts = [g.root] + [by[h] for h in heads]
    stops = {x.id for x in g.exits} | set(heads)
    mc = must_conds(g, starts, a)
    neg = {(t, not p) for t, p in mc}

    def cond_ok(c):
        return not any((t, p) in neg for t, p in (c or ()))
    pre = None
    if before:
        for s in starts:
            if s is na:
                pre = [na]
            elif na.id in bn:
                continue
            else:
                pre = walk(g, s, {na.id}, bn, be, cond_ok=cond_ok)
            if pre:
                break
        if pre is None:
            return None
    else:
        pre = [na]
    if isinstance(a, tuple):
        pre = pre + [nb]
    if nb.id in bn:
        return None
    if not after:
        return pre
    if nb.id in stops and (isinstance(a, tuple) or True) and nb is not na:
        return pre
    post = walk(g, nb, stops, bn, be, cond_ok=cond_ok)
    if post is None:
        return None
    return pre + post[1:]
