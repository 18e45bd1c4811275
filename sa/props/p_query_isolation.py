"""Reused servers, potentials and one-to-many engines answer like fresh ones."""
from framework import fname, Missing
from state import StateView, prim
from core import show, loc, subterms

ID = 'C01'
EXPLANATION = ('For every reusable query object the event graph of its initialising operation and of its other operations is built from MIR '
               '(callees and closures inlined). Every field some operation mutates and some operation reads must either be reset on every path of the '
               'initialising operation before it is read, or be left clean by every operation; four special disciplines (undo log, drained slots, '
               'elimination-tree walk, label payload) have their own path rules. Rule instances are (object, field) pairs.')
ASSUMPTIONS = ['a method named clear/reset/init/fill/truncate of the container types empties it (container internals: property resettable-containers)',
               'queries are run to completion (no panic in the middle)']

CCH = 'algo::customizable_contraction_hierarchy'
PAYLOAD = 'payload'      # only read for entries whose companion label was set in this query
CONFIG = 'config'        # part of the input, changed by a documented separate operation
OBJECTS = [
    # label, module, type, init methods (method, root arg), use methods, {field: discipline}
    ('DijkstraRun', 'algo::dijkstra::generic_dijkstra', 'DijkstraRun', [('query', 2)], [], {'predecessors': PAYLOAD}),
    ('MultiCritDijkstraRun', 'algo::dijkstra::generic_dijkstra', 'MultiCritDijkstraRun', [('query', 2)], [], {'predecessors': PAYLOAD}),
    ('SendTopoDijkstraRun', 'algo::dijkstra::gen_topo_dijkstra', 'SendTopoDijkstraRun', [('query', 2)], [], {'predecessors': PAYLOAD}),
    ('TopoDijkstraRun', 'algo::dijkstra::gen_topo_dijkstra', 'TopoDijkstraRun', [('query', 2)], [], {'predecessors': PAYLOAD}),
    ('Dijkstra server', 'algo::dijkstra::query::dijkstra', 'Server', [('distance', 1)], [], {'dijkstra.predecessors': PAYLOAD}),
    ('bidirectional Dijkstra server', 'algo::dijkstra::query::bidirectional_dijkstra', 'Server', [('distance', 1)], [],
     {'forward_data.predecessors': PAYLOAD, 'backward_data.predecessors': PAYLOAD, 'meeting_node': PAYLOAD}),
    ('floating TD Dijkstra server', 'algo::dijkstra::query::floating_td_dijkstra', 'Server', [('distance', 1)], [], {'data.predecessors': PAYLOAD}),
    ('Dijkstra nearest neighbour', 'algo::dijkstra::query::nearest_neighbor', 'DijkstraNearestNeighbor', [('query', 1)], [], {'dijkstra.predecessors': PAYLOAD}),
    ('CCH server', CCH + '::query', 'Server', [('distance', 1)], [('path', 1)],
     {'fw_parents': PAYLOAD, 'bw_parents': PAYLOAD, 'fw_distances': 'walk', 'bw_distances': 'walk'}),
    ('CH server', 'algo::contraction_hierarchy::query', 'Server', [('distance', 1)], [],
     {'forward_data.predecessors': PAYLOAD, 'backward_data.predecessors': PAYLOAD, 'meeting_node': PAYLOAD}),
    ('CCHPotential', 'algo::ch_potentials', 'CCHPotential', [('init_with_cch_rank', 1)], [('potential_with_cch_rank', 1)], {}),
    ('CCHPotential (ids)', 'algo::ch_potentials', 'CCHPotential', [('init', 1)], [('potential', 1)], {}),
    ('CCHPotentialWithPathUnpacking', 'algo::ch_potentials', 'CCHPotentialWithPathUnpacking', [('init', 1)], [('potential', 1), ('unpack_path', 1)],
     {'backward_parents': PAYLOAD}),
    ('CHPotential', 'algo::ch_potentials', 'CHPotential', [('init', 1)], [('potential', 1)], {'dijkstra_data.predecessors': PAYLOAD}),
    ('BucketCHPotential', 'algo::ch_potentials', 'BucketCHPotential', [('init', 1)], [('potential', 1)],
     {'potentials': ('undo', 'to_clear'), 'to_clear': 'log', 'dijkstra_data.incoming': 'slots', 'dijkstra_data.incoming_pruning': 'slots',
      'dijkstra_data.terminal_dists': ('undo', 'dijkstra_data.used_terminals'), 'dijkstra_data.used_terminals': 'log'}),
    ('BaselinePotential', 'algo::a_star', 'BaselinePotential', [('init', 1)], [('potential', 1)], {'data.predecessors': PAYLOAD}),
    ('AveragePotential', 'algo::a_star', 'AveragePotential', [('init', 1)], [('forward_potential', 1), ('backward_potential', 1)], {}),
    ('SymmetricBiDirPotential', 'algo::a_star', 'SymmetricBiDirPotential', [('init', 1)], [('forward_potential', 1), ('backward_potential', 1)], {}),
    ('TurnExpandedPotential', 'algo::a_star', 'TurnExpandedPotential', [('init', 1)], [('potential', 1)], {}),
    ('ALTPotential', 'algo::alt', 'ALTPotential', [('init', 1)], [('potential', 1)], {}),
    ('RPHAST selection', 'algo::rphast', 'RPHAST', [('select', 1)], [],
     {'restricted_ids': ('undo', 'restricted_nodes'), 'restricted_nodes': 'log', 'selection_stack': 'balanced'}),
    ('RPHAST query', 'algo::rphast', 'RPHASTQuery', [('query', 1)], [], {'dijkstra_data.predecessors': PAYLOAD}),
    ('SSE RPHAST query', 'algo::rphast', 'SSERPHASTQuery', [('query', 1)], [],
     {'dijkstra_data.incoming': 'slots', 'dijkstra_data.incoming_pruning': 'slots',
      'dijkstra_data.terminal_dists': ('undo', 'dijkstra_data.used_terminals'), 'dijkstra_data.used_terminals': 'log'}),
    ('separator NN selection', CCH + '::query::nearest_neighbor', 'SeparatorBasedNearestNeighbor', [('select_targets', 1)], [], {}),
    ('separator NN query', CCH + '::query::nearest_neighbor', 'SeparatorBasedNearestNeighbor', [('query', 1)], [], {'targets': CONFIG, 'cch.head': CONFIG}),
    ('lazy RPHAST NN query', CCH + '::query::nearest_neighbor', 'LazyRphastNearestNeighbor', [('query', 1)], [], {}),
    ('BCCH NN selection', CCH + '::query::nearest_neighbor', 'BCCHNearestNeighbor', [('select_targets', 1)], [],
     {'selection_data.incoming': 'slots', 'selection_data.incoming_pruning': 'slots',
      'selection_data.terminal_dists': ('undo', 'selection_data.used_terminals'), 'selection_data.used_terminals': 'log'}),
    ('BCCH NN query', CCH + '::query::nearest_neighbor', 'BCCHNearestNeighbor', [('query', 1)], [],
     {'fw_distances': 'walk', 'selection_data.distances': CONFIG}),
    ('A* server', 'algo::ch_potentials::query', 'Server', [('distance', 1)], [], {}),
    ('bidirectional A* server', 'algo::ch_potentials::query', 'BiDirServer', [('query', 1)], [], {}),
    ('A* server on reduced graph', 'algo::ch_potentials::query', 'SkipLowDegServer', [('distance', 1)], [], {}),
    ('bidirectional A* core server', 'algo::ch_potentials::query', 'BiDirCoreServer', [('query', 1)], [], {}),
    ('multi-threaded A* server', 'algo::ch_potentials::query', 'MultiThreadedBiDirSkipLowDegServer', [('distance', 1)], [], {}),
    ('TD A* server', 'algo::ch_potentials::td_query', 'Server', [('distance', 1)], [], {}),
    ('TD A* server on reduced graph', 'algo::ch_potentials::td_query', 'SkipLowDegServer', [('distance', 1)], [], {}),
    ('RecyclingPotential', 'algo::a_star', 'RecyclingPotential', [('init', 1)], [('potential', 1)], {'potential': ('memo', 'target'), 'target': 'key'}),
    ('TDRecyclingPotential', 'algo::td_astar', 'TDRecyclingPotential', [('init', 1)], [('potential', 1)], {'potential': ('memo', 'query'), 'query': 'key'}),
    ('MultiMetric', 'algo::td_astar', 'MultiMetric', [('init', 1)], [('potential', 1)],
     {'metric_ranges': CONFIG, 'upper_bound_dist.fw_distances': CONFIG, 'upper_bound_dist.bw_distances': CONFIG}),
    ('MinMaxPotential', 'algo::td_astar', 'MinMaxPotential', [('init', 1)], [('potential', 1)], {}),
    ('IntervalMinPotential', 'algo::td_astar', 'IntervalMinPotential', [('init', 1)], [('potential', 1)], {}),
    ('sampling server', 'algo::time_dependent_sampling', 'Server', [('distance', 1)], [], {}),
    ('CATCHUp server', 'algo::catchup', 'Server', [('distance', 1)], [],
     {'forward.distances': PAYLOAD, 'backward.distances': PAYLOAD, 'forward_tree_mask': PAYLOAD, 'backward_tree_mask': PAYLOAD}),
    ('Dijkstra nearest neighbour selection', 'algo::dijkstra::query::nearest_neighbor', 'DijkstraNearestNeighbor', [('select_targets', 1)], [], {}),
]


def inherent(ctx, module, ty, name):
    fs = ctx.method(ty, name, module=module, one=False)
    inh = [f for f in fs if f.impl[1] is None]
    fs = inh or fs
    if len(fs) != 1:
        # prefer BiDirPotential/Potential implementation
        raise Missing('%d candidates for %s::%s::%s' % (len(fs), module, ty, name))
    return fs[0]


def rule_objects(ctx):
    for label, module, ty, inits, uses, special in OBJECTS:
        try:
            ifs = [(inherent(ctx, module, ty, m), r) for m, r in inits]
            ufs = [(inherent(ctx, module, ty, m), r) for m, r in uses]
        except Missing as e:
            ctx.ob('anchor', label, False, str(e))
            continue
        views = []
        for f, r in ifs + ufs:
            g = ctx.graph(f, 'prim', opaque=prim)
            sv = StateView(g, roots=(r,))
            res = {p[1:]: x for p, x in sv.run().items()}
            views.append((f, sv, res))
        allp = {}
        for f, sv, res in views:
            for p, x in res.items():
                allp.setdefault(p, set()).update(x['kinds'])
        ninit = len(ifs)
        for p in sorted(allp):
            kinds = set(''.join(allp[p]))
            name = '.'.join(p)
            # a prefix path that is only mentioned as a whole is covered by its components
            if any(q != p and q[:len(p)] == p for q in allp):
                continue
            if kinds == {'K'} or 'R' not in kinds and 'W' not in kinds:
                continue
            disc = special.get(name)
            if disc is None and p[-1] in ('predecessors', 'ops'):
                disc = PAYLOAD if p[-1] == 'predecessors' else CONFIG
            subject = '%s.%s' % (label, name)
            if disc in (PAYLOAD, CONFIG, 'log', 'key'):
                continue
            if isinstance(disc, tuple) and disc[0] == 'undo':
                check_undo(ctx, label, views, ninit, p, tuple(disc[1].split('.')), subject)
                continue
            if isinstance(disc, tuple) and disc[0] == 'memo':
                check_memo(ctx, views[0], p, tuple(disc[1].split('.')), subject)
                continue
            if disc == 'slots':
                check_slots(ctx, views, p, subject)
                continue
            if disc == 'walk':
                continue
            if disc == 'balanced':
                bad = balanced(views[0][1], p)
                ctx.ob('reset-before-use', subject, bad is None, 'left non-empty by %s' % fname(views[0][0]), node=bad)
                continue
            # (b) left clean by all operations
            clean = all(res.get(p) is None or res[p]['dirty_exit'] is None for _, _, res in views)
            bad = None
            why = ''
            for f, sv, res in views[:ninit]:
                x = res.get(p)
                if x is None:
                    # is a prefix killed?
                    x = sv.one((sv_root(sv),) + p)
                if x['exposed'] is not None:
                    bad = x['exposed']
                    why = '%s reads %s before it has been reset on some path: the value of an earlier query is visible' % (fname(f), name)
                    break
                if x['appended'] is not None:
                    bad = x['appended']
                    why = '%s adds to %s without emptying it first: entries of earlier calls stay in it' % (fname(f), name)
                    break
                if x['unkilled_exit'] and any('R' in ''.join(res2[p]['kinds']) for _, _, res2 in views[ninit:] if p in res2):
                    bad = sv.g.root
                    why = '%s can return without resetting %s, which later operations read' % (fname(f), name)
                    break
                if x['unkilled_exit'] and 'W' in ''.join(x['kinds']) and ('R' in kinds) and ninit == len(views) and x['exposed'] is not None:
                    bad = x['exposed']
            if bad is not None and clean:
                bad = None
            ctx.ob('reset-before-use', subject, bad is None, why, node=bad)
    ctx.floor('reset-before-use', 40)


def sv_root(sv):
    return next(iter(sv.roots))


def balanced(sv, p):
    """stack-like field: every exit of the loop over it goes through the empty edge"""
    r = sv.one((sv_root(sv),) + p)
    return r['dirty_exit']


def idx_of(t):
    while t[0] == 'fld':
        t = t[1]
    return t[2] if t[0] == 'idx' else (t if t[0] == 'elem' else None)


def is_reset_value(v):
    return (v[0] == 'agg' and v[2] == 'None') or (v[0] == 'const' and v[1] in ('NONE', 'INFINITY', 2147483647)) or (v[0] == 'agg' and len(v[3]) == 1 and v[3][0][1] == ('const', 'SENTINEL'))


def check_undo(ctx, label, views, ninit, p, log, subject):
    """entries of p set during an operation are recorded in `log`, whose traversal restores every recorded entry"""
    restored = False
    for f, sv, res in views:
        g = sv.g
        root = sv_root(sv)
        P = (root,) + p
        L = (root,) + log
        for n in g.events('write'):
            pl = sv.place(n.d['place'])
            if not any(q == P for q, el in pl):
                continue
            v = n.d['value']
            if is_reset_value(v):
                ix = idx_of(n.d['place'])
                src = None
                if ix is not None:
                    for t in subterms(ix):
                        if t[0] in ('elem', 'idx') and any(q == L for q, el in sv.place(t)):
                            src = t
                        if t[0] == 'call' and t[1].rsplit('.', 1)[-1] in ('pop', 'pop_front', 'pop_back') and any(q == L for q, el in sv.place(t[2][0])):
                            src = t
                if src is not None:
                    # unconditional in the loop body: from the Some edge no path back to the loop head avoids the write
                    subs = set(subterms(ix))
                    heads = sv.loop_edges(lambda x: x in subs)
                    ok = bool(heads) and all(m.id == n.id or h.id not in g.reachable([m], avoid=lambda x: x.id == n.id) for h, m in heads)
                    ctx.ob('undo-log', subject + ' restore', ok, '%s does not restore every entry recorded in %s' % (fname(f), '.'.join(log)), node=n)
                    restored = restored or ok
                continue
    ctx.ob('undo-log', subject, restored, 'no operation restores the entries of %s recorded in %s' % ('.'.join(p), '.'.join(log)))
    # in the initialising operation the restore loop comes before any other access
    for f, sv, res in views[:ninit]:
        g = sv.g
        root = sv_root(sv)
        P = (root,) + p
        L = (root,) + log
        # every set of an entry is accompanied by recording it
    for f, sv, res in views:
        g = sv.g
        root = sv_root(sv)
        P = (root,) + p
        L = (root,) + log
        sets = [n for n in g.events('write') if any(q == P for q, el in sv.place(n.d['place'])) and not is_reset_value(n.d['value']) and n.d['place'][0] == 'idx' and not any(el for q, el in sv.place(n.d['place'][1]))]
        pushes = [n for n in g.events('call') if n.d['method'] in ('push', 'insert', 'push_back') and n.d['args'] and any(q == L and not el for q, el in sv.place(n.d['args'][0]))]
        for n in sets:
            ix = idx_of(n.d['place'])
            rec = [m for m in pushes if rec_matches(m.d['args'][1], ix)]
            # on every path through the set, the push happens before it or after it, unless a guard says the entry is already set
            ids = {m.id for m in rec}
            before = g.path(g.root, lambda x: x is n, avoid=lambda x: x.id in ids, edge_ok=lambda a, b, c: not already_set(sv, P, ix, c))
            after = True
            if before is not None:
                after = g.path(n, lambda x: x.kind == 'exit' and x in g.exits or x is n, avoid=lambda x: x.id in ids)
                after = after is not None
            ctx.ob('undo-log', subject + ' record', before is None or not after,
                   '%s sets an entry of %s without recording it in %s: it survives into the next query' % (fname(f), '.'.join(p), '.'.join(log)), node=n, path=before)
    ctx.floor('undo-log', 1)


def rec_matches(v, ix):
    if v == ix:
        return True
    if v[0] == 'agg' and len(v[3]) == 1:
        return v[3][0][1] == ix
    return False


def already_set(sv, P, ix, conds):
    """edge taken only when entry ix of P already differs from its reset value"""
    for t, pol in conds:
        for s in subterms(t):
            if s[0] == 'idx' and s[2] == ix and any(q == P for q, el in sv.place(s)):
                if t[0] == 'bin' and t[1] == 'Eq' and not pol and any(x == ('const', 'INFINITY') for x in t[2:4]):
                    return True
                if t[0] == 'is' and ((t[2] == 'Some' and pol) or (t[2] == 'None' and not pol)):
                    return True
                if t[0] == 'call' and t[1].endswith('is_none') and not pol:
                    return True
                if t[0] == 'call' and t[1].endswith('is_some') and pol:
                    return True
    return False


def check_memo(ctx, view, p, key, subject):
    """the wrapped object is only left as it is when the stored key equals all arguments, and the key is stored with it"""
    f, sv, res = view
    g = sv.g
    root = sv_root(sv)
    P, K = (root,) + p, (root,) + key
    args = {('arg', i) for i in f.parse().args} - {('arg', root)}

    def eq_edge(conds):
        for t, pol in conds:
            if (K in sv.expand(t)) and args <= {x for x in subterms(t) if x[0] == 'arg'}:
                if (pol and (t[0] == 'bin' and t[1] == 'Eq' or t[0] == 'call' and t[1].endswith('.eq'))) or (not pol and (t[0] == 'bin' and t[1] == 'Ne' or t[0] == 'call' and t[1].endswith('.ne'))):
                    return True
        return False
    kills = {n.id for n in g.nodes if n.id in g.reach and sv.kills(n.id, P)}
    bad = g.path(g.root, lambda x: x in g.exits, avoid=lambda x: x.id in kills, edge_ok=lambda a, b, c: not eq_edge(c))
    ctx.ob('memo', subject, bool(kills) and bad is None, '%s can keep the state of an earlier query although not all parameters are equal' % fname(f), path=bad)
    stores = {n.id for n in g.events('write') if any(q == K for q, el in sv.place(n.d['place'])) and args <= {x for x in subterms(n.d['value']) if x[0] == 'arg'}}
    for n in g.nodes:
        if n.id in kills:
            before = g.path(g.root, lambda x: x is n, avoid=lambda x: x.id in stores)
            after = g.path(n, lambda x: x in g.exits, avoid=lambda x: x.id in stores)
            ctx.ob('memo', subject + ' key', before is None or after is None, '%s does not store the parameters its state belongs to' % fname(f), node=n, path=after)


def check_slots(ctx, views, p, subject):
    """per-slot lists: each processed slot is emptied on every path before the next one is taken"""
    for f, sv, res in views:
        g = sv.g
        P = (sv_root(sv),) + p
        pushes = [n for n in g.events('call') if n.d['method'] in ('push', 'extend') and n.d['args'] and any(q == P and el for q, el in sv.place(n.d['args'][0]))]
        if not pushes:
            continue
        drains = [n for n in g.events('call') if n.d['method'] in ('drain', 'clear') and n.d['args'] and any(q == P and el for q, el in sv.place(n.d['args'][0]))]
        # the queue element that selects the slot
        ids = {n.id for n in drains}
        ctx.ob('slot-drain', subject, bool(drains), 'no slot of %s is ever emptied in %s' % ('.'.join(p), fname(f)), node=pushes[0])
        # after a slot list was selected by a queue pop, all paths to the next pop drain it
        pops = [n for n in g.events('call') if n.d['method'] == 'pop' and n.d['key'].startswith('IndexdMinHeap')]
        for q in pops:
            starts = [m for h in g.nodes if h.id in g.reach for m, c in h.succ if any(pol and t[0] == 'is' and t[2] == 'Some' and t[1][0] == 'call' and t[1][1].startswith('IndexdMinHeap.pop') for t, pol in c)]
            bad = None
            for s in starts:
                bad = g.path(s, lambda x: x.id == q.id or x in g.exits, avoid=lambda x: x.id in ids)
                if bad:
                    break
            ctx.ob('slot-drain', subject + ' every processed slot', bad is None,
                   '%s can finish processing a node without emptying its list in %s' % (fname(f), '.'.join(p)), node=q, path=bad)
        for n in pushes:
            a = n.d['args'][0]
            while a[0] == 'fld':
                a = a[1]
            slot = a[2] if a[0] == 'idx' else None
            enq = [m for m in g.events('call') if m.d['method'] in ('push', 'push_unless_contained') and m.d['key'].startswith('IndexdMinHeap') and len(m.d['args']) > 1 and rec_matches(m.d['args'][1], slot)]
            ids2 = {m.id for m in enq}
            bad = g.path(n, lambda x: x in g.exits or x is n or x.id in {q.id for q in pops}, avoid=lambda x: x.id in ids2)
            ctx.ob('slot-drain', subject + ' pushed slot is queued', bool(enq) and bad is None,
                   '%s fills a slot of %s whose node is not put into the queue that empties it' % (fname(f), '.'.join(p)), node=n, path=bad)


# ---------------------------------------------------------------- elimination tree walks over arrays that are cleaned entry by entry
def walk_opaque(g):
    return g.impl is not None and g.impl[0].split('<')[0].strip().endswith('EliminationTreeWalk')


def rule_walks(ctx):
    n = 0
    for label, module, ty, inits, uses, special in OBJECTS:
        fields = [k for k, v in special.items() if v == 'walk']
        for fld in fields:
            f = inherent(ctx, module, ty, inits[0][0])
            check_walk(ctx, f, fld, label)


def check_walk(ctx, f, field, label):
    g = ctx.graph(f, 'walk', opaque=lambda x: prim(x) or walk_opaque(x))
    A = g.A
    subject = '%s.%s' % (label, field)
    created = [n for n in g.events('call') if n.d['key'].startswith('EliminationTreeWalk.query') and any(a == ('fld', ('arg', 1), field) for a in n.d['args'])]
    ctx.ob('walk-clean', subject + ' walk found', len(created) >= 1, 'no elimination tree walk over %s in %s' % (field, fname(f)))
    for cr in created:
        # the walk object: cell or term
        def is_walk(t):
            t0 = t
            for x in [t0] + A.alternatives(t0):
                if x[0] == 'call' and x[1].startswith('EliminationTreeWalk.query') and any(a == ('fld', ('arg', 1), field) for a in x[2]):
                    return True
            return False

        def op(n):
            if n.kind == 'call' and n.d['key'].startswith('EliminationTreeWalk.') and n.d['args'] and is_walk(n.d['args'][0]):
                return n.d['method']
            return None
        if cr.d['key'].endswith('.query'):
            ctx.ob('walk-clean', subject, True, node=cr)
            continue
        gm = g._guard_map()

        def walk_of(x):
            """distance fields of the walk(s) whose head the term denotes"""
            res = set()
            for y in [x] + A.alternatives(x):
                w = None
                if y[0] == 'elem':
                    w = y[1]
                elif y[0] == 'fld' and y[2] == 'Some.0' and y[1][0] == 'call' and y[1][1].rsplit('.', 1)[-1] in ('peek', 'next') and y[1][2]:
                    w = y[1][2][0]
                if w is not None:
                    for z in [w] + A.alternatives(w):
                        if z[0] == 'call' and z[1].startswith('EliminationTreeWalk.query') and len(z[2]) > 2:
                            res.add(z[2][2])
            return res
        mine = ('fld', ('arg', 1), field)

        def same_node(n, t):
            """does term t denote the node currently at the head of this walk?"""
            ws = walk_of(t)
            if mine in ws:
                return True
            # equal by guards to the head of the walk: neither smaller nor larger
            le = ge = False
            for (c, pol) in gm.get(n.id, frozenset()):
                if c[0] != 'bin' or c[1] not in ('Eq', 'Ne', 'Lt', 'Le'):
                    continue
                l, r = walk_of(c[2]), walk_of(c[3])
                lt, rt = c[2] == t or bool(l & ws), c[3] == t or bool(r & ws)
                if not ((mine in l and rt) or (mine in r and lt)):
                    continue
                swap = mine in r
                if (c[1], pol) in (('Eq', True), ('Ne', False)):
                    le = ge = True
                elif (c[1], pol) == ('Lt', False):
                    le, ge = (le or swap, ge or not swap)
                elif (c[1], pol) == ('Le', True):
                    le, ge = (le or not swap, ge or swap)
            return le and ge

        # product exploration: state = (pending reset?, walk exhausted?)
        start = (cr, 0, 0)
        seen = {(cr.id, 0, 0): None}
        st = [start]
        bad = None
        wrong = None
        while st and bad is None:
            n, pend, done = st.pop()
            o = op(n)
            if n is not cr and o in ('next', 'skip_next'):
                if pend:
                    bad = (n, 'advances the walk although the distance of the previous node was not reset')
                    break
                pend = 1
            elif o == 'reset_distance':
                if same_node(n, n.d['args'][1]):
                    pend = 0
                else:
                    wrong = n
            if n in g.exits:
                if pend or not done:
                    bad = (n, 'returns while %s' % ('the last visited node was not reset' if pend else 'the walk has not reached the root: the distances of the remaining nodes stay set'))
                    break
            for m, c in n.succ:
                d2 = done
                p2 = pend
                for t, pol in c:
                    if pol and t[0] == 'is' and t[2] == 'None' and t[1][0] == 'call' and t[1][1].rsplit('.', 1)[-1] in ('peek', 'next') and t[1][2] and is_walk(t[1][2][0]):
                        d2 = 1
                        if t[1][1].endswith('next'):
                            p2 = 0
                    if pol and t[0] == 'is' and t[2] == 'Some' and t[1][0] == 'call' and t[1][1].rsplit('.', 1)[-1] in ('peek',) and t[1][2] and is_walk(t[1][2][0]):
                        d2 = 0
                k = (m.id, p2, d2)
                if k not in seen:
                    seen[k] = (n.id, pend, done)
                    st.append((m, p2, d2))
        ctx.ob('walk-clean', subject, bad is None, '%s %s' % (fname(f), bad[1] if bad else ''), node=bad[0] if bad else cr)
        if bad is None:
            ctx.ob('walk-clean', subject + ' resets the walked node', True, node=cr)


RULES = [('objects', rule_objects), ('walks', rule_walks)]
