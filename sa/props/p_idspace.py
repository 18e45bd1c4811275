"""C04: external node ids and ranks are never mixed up."""
from core import subterms, show
from framework import Missing, fname
from rules import *
from sorts import Sorts, EXT, RANK
import state, re

ID = 'C04'
CRATES = 'engine'
EXPLANATION = ('For every function of the engine that touches a NodeOrder, the terms of its event graph (private helpers and closures inlined) are partitioned into id classes: same memory cell, index of the same array, elements of the same '
               'container, alternatives of one variable, compared ids. The accessors of NodeOrder and the declared parameter spaces of the public interfaces label the classes external id or rank; a class with both labels, a state array that '
               'is indexed by one space in one method and by the other in another method of the same type, a query that is not permuted exactly once before its node ids are used, and a node path that leaves a server without conversion '
               'on some path are violations.')
ASSUMPTIONS = ['the parameter spaces declared in the table PARAMS are those documented by the interfaces (queries and potentials take external ids, the *ForPermutated wrappers and the rank graphs take ranks)']

A = 'algo::'
# (module, type, method): spaces of parameters
PARAMS = [
    (A + 'a_star', 'PotentialForPermutated', 'init', {2: RANK, 3: RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'potential', {2: RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'forward_potential', {2: RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'backward_potential', {2: RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'forward_potential_raw', {2: RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'backward_potential_raw', {2: RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'prune_forward', {(2, '0'): RANK}),
    (A + 'a_star', 'PotentialForPermutated', 'prune_backward', {(2, '0'): RANK}),
    (A + 'td_astar', 'TDPotentialForPermutated', 'init', {2: RANK, 3: RANK}),
    (A + 'td_astar', 'TDPotentialForPermutated', 'potential', {2: RANK}),
    (A + 'td_astar', 'MultiMetric', 'init', {2: EXT, 3: EXT}),
    (A + 'td_astar', 'IntervalMinPotential', 'init', {2: EXT, 3: EXT}),
    (A + 'td_astar', 'IntervalMinPotential', 'potential', {2: EXT}),
    (A + 'traffic_aware::td_traffic_pots', 'MultiMetric', 'init', {2: EXT, 3: EXT}),
    (A + 'traffic_aware::td_traffic_pots', 'IntervalMinPotential', 'init', {2: EXT, 3: EXT}),
    (A + 'traffic_aware::td_traffic_pots', 'IntervalMinPotential', 'potential', {2: EXT}),
    (A + 'ch_potentials', 'CCHPotential', 'init', {2: EXT}),
    (A + 'ch_potentials', 'CCHPotential', 'potential', {2: EXT}),
    (A + 'ch_potentials', 'CHPotential', 'init', {2: EXT}),
    (A + 'ch_potentials', 'CHPotential', 'potential', {2: EXT}),
    (A + 'ch_potentials', 'BucketCHPotential', 'potential', {2: EXT}),
    (A + 'ch_potentials::penalty', 'PenaltyIterative', 'alternatives', {(2, 'from'): EXT, (2, 'to'): EXT}),
    (A + 'ch_potentials::query', 'PathServerWrapper', 'distance', {2: EXT}),
    (A + 'ch_potentials::query', 'PathServerWrapper', 'predecessor', {2: EXT}),
    (A + 'ch_potentials::td_query', 'PathServerWrapper', 'distance', {2: EXT}),
    (A + 'ch_potentials::td_query', 'PathServerWrapper', 'predecessor', {2: EXT}),
    (A + 'catchup', 'Server', 'distance', {2: EXT, 3: EXT}),
    (A + 'catchup::partial_profiles', 'Server', 'distance', {2: EXT, 3: EXT}),
    (A + 'catchup::profiles_naive', 'Server', 'distance', {2: EXT, 3: EXT}),
    (A + 'catchup::profiles', 'Server', 'distance', {2: EXT, 3: EXT}),
    (A + 'contraction_hierarchy::query', 'Server', 'distance', {2: EXT, 3: EXT}),
    (A + 'customizable_contraction_hierarchy::query', 'Server', 'distance', {2: EXT, 3: EXT}),
    (A + 'customizable_contraction_hierarchy::query', 'Server', 'path', {(2, 'from'): EXT, (2, 'to'): EXT}),
    (A + 'customizable_contraction_hierarchy::query::nearest_neighbor', 'BCCHNearestNeighbor', 'query', {2: EXT}),
    (A + 'rphast', 'RPHAST', 'select', {('V', 2): EXT}),
    (A + 'rphast', 'SSERPHASTQuery', 'query', {('V', 2): EXT}),
    (A + 'customizable_contraction_hierarchy::query::nearest_neighbor', 'BCCHNearestNeighbor', 'select_targets', {('V', 2): EXT}),
    (A + 'rphast', 'RPHASTQuery', 'query', {2: EXT}),
    (A + 'rphast', 'RPHASTResult', 'distance', {2: EXT}),
    (A + 'rphast', 'SSERPHASTResult', 'distances', {2: EXT}),
    (A, 'Query', 'permutate', {(1, 'from'): EXT, (1, 'to'): EXT}),
    (A, 'TDQuery', 'permutate', {(1, 'from'): EXT, (1, 'to'): EXT}),
    ('datastr::node_order', 'NodeOrder', 'rank', {2: EXT}),
    ('datastr::node_order', 'NodeOrder', 'node', {2: RANK}),
]
# public entry points whose generic query has to be permuted before use
PERMUTED = [(A + 'ch_potentials::query', 'Server', ('td_query', 'query')), (A + 'ch_potentials::td_query', 'Server', ('td_query',)),
            (A + 'ch_potentials::query', 'PathServerWrapper', ('reconstruct_node_path', 'reconstruct_edge_path')),
            (A + 'ch_potentials::td_query', 'PathServerWrapper', ('reconstruct_node_path', 'reconstruct_edge_path')),
            (A + 'ch_potentials::query', 'BiDirServer', ('query',)),
            (A + 'ch_potentials::penalty', 'PenaltyIterative', ('alternatives',)), (A + 'ch_potentials::penalty', 'Penalty', ('alternatives',))]
# entry points that hand a node path (or single nodes) to the user
PATHS = [(A + 'ch_potentials::query', 'PathServerWrapper', 'reconstruct_node_path'), (A + 'ch_potentials::td_query', 'PathServerWrapper', 'reconstruct_node_path'),
         (A + 'ch_potentials::query', 'BiDirPathServerWrapper', 'reconstruct_node_path'),
         (A + 'customizable_contraction_hierarchy::query', 'PathServerWrapper', 'reconstruct_node_path'),
         (A + 'contraction_hierarchy::query', 'PathServerWrapper', 'reconstruct_node_path'),
         (A + 'catchup', 'PathServerWrapper', 'reconstruct_node_path')]
SINGLE = [(A + 'ch_potentials::query', 'PathServerWrapper', 'predecessor'), (A + 'ch_potentials::td_query', 'PathServerWrapper', 'predecessor')]


def opaque(f):
    if f.key.startswith('report') or 'floating_time_dependent' in f.key or 'piecewise_linear' in f.key:
        return True
    return False


def methods(ctx, mod, ty, name):
    fs = ctx.method(ty, name, one=False)
    fs = [f for f in fs if f.key.split('::<impl')[0] == mod.rstrip(':')]
    if not fs:
        raise Missing('no method %s::%s::%s' % (mod, ty, name))
    return fs


def pre_of(spec):
    r = []
    for k, l in spec.items():
        if isinstance(k, int):
            r.append(('T', ('arg', k), l))
        elif k[0] == 'V':
            r.append(('V', ('arg', k[1]), l))
        else:
            r.append(('T', ('fld', ('arg', k[0]), k[1]), l))
    return r


def report(ctx, rule, name, S):
    seen = set()
    for n, m, why in S.conflicts:
        why_t = '; '.join('%s: %s (%s)' % (k, v[0][:160], loc_of(v[1])) for k, v in m.items())
        if not why_t in seen:
            seen.add(why_t)
            ctx.ob(rule, name, False, 'one id is used both as external id and as rank (%s) [%s]' % (why_t, str(why)[:120]), n)
    if not S.conflicts:
        ctx.ob(rule, name, True)


def loc_of(n):
    from core import loc
    return loc(n.span) if n is not None and n.span else 'interface'


def selfkey(k):
    """normalised key of a piece of state of the receiver"""
    kind, t = k
    p = []
    while t[0] == 'fld':
        p.append(t[2])
        t = t[1]
    return (kind,) + tuple(reversed(p)) if t == ('arg', 1) and p else None


def roots(ctx):
    for f in ctx.P.funcs.values():
        if '{closure' in f.key:
            continue
        tx = f._text
        if 'NodeOrder' in tx and ('::rank(' in tx or '::node(' in tx or '::order(' in tx or '::ranks(' in tx):
            yield f


def r_spaces(ctx):
    spec = {}
    for mod, ty, m, d in PARAMS:
        fs = [f for f in methods(ctx, mod, ty, m)]
        hit = 0
        for f in fs:
            n = max([k if isinstance(k, int) else (k[1] if k[0] == 'V' else k[0]) for k in d])
            spec[f.key] = d
            hit += 1
    state_labels = {}
    n_lab = 0
    fs = list(roots(ctx))
    done = {f.key for f in fs}
    fs += [ctx.P.funcs[k] for k in spec if k not in done]
    for f in fs:
        try:
            g = ctx.graph(f, key='ids', opaque=opaque)
        except Exception as e:
            if f.key in spec:
                raise
            continue
        d = spec.get(f.key, {})
        if len(f.args) < max([0] + [k if isinstance(k, int) else (k[1] if k[0] == 'V' else k[0]) for k in d]):
            d = {k: v for k, v in d.items() if (k if isinstance(k, int) else (k[1] if k[0] == 'V' else k[0])) <= len(f.args)}
        S0 = Sorts(g)
        S = Sorts(g, pre=pre_of(d)) if d else S0
        report(ctx, 'no-mixed-spaces', fname(f) + impl_tag(f), S)
        for kind, t, l in pre_of(d):
            k = S0.V(t) if kind == 'V' else S0.cls(t)
            got = set(S0.lab.get(S0.find(k), {}))
            n_lab += 1
            ctx.ob('parameter-space', '%s%s:%s' % (fname(f), impl_tag(f), show(t)), got == {l}, 'parameter %s is declared to be %s, the function uses it as %s' % (show(t), l, ' and '.join(sorted(got)) or 'neither: it is not converted with the node order'), g.root)
        if f.impl:
            ty = f.key.split('::<impl')[0] + '::' + f.impl[0].split('<')[0].split('::')[-1].strip().lstrip('&')
            for k in list(S.seen):
                if k[0] in 'VI' or k[0] == 'T' and k[1][0] == 'fld':
                    sk = selfkey(k)
                    if sk:
                        for l in S.lab.get(S.find(k), {}):
                            state_labels.setdefault((ty, sk), {}).setdefault(l, []).append(fname(f))
    for (ty, sk), d in sorted(state_labels.items()):
        ctx.ob('state-space', '%s.%s(%s)' % (ty, '.'.join(sk[1:]), {'V': 'elements', 'I': 'index', 'T': 'value'}[sk[0]]), len(d) == 1,
               'the same state is used with external ids in %s and with ranks in %s' % (', '.join(d.get(EXT, [])), ', '.join(d.get(RANK, []))))
    ctx.floor('no-mixed-spaces', 55)
    ctx.floor('state-space', 40)


def impl_tag(f):
    return '<%s>' % f.impl[1].split('<')[0].split('::')[-1] if f.impl and f.impl[1] else ''


QFREE = ('from', 'to', 'permutate', 'initial_state', 'eq', 'ne', 'clone', 'new', 'departure')


def query_terms(g):
    """query values that are generic or permuted in this graph"""
    r = []
    for n in g.events('call'):
        if n.d['method'] == 'permutate' and n.d['args'][0] not in r:
            r.append(n.d['args'][0])
    return r


def r_permute(ctx):
    cnt = 0
    for mod, ty, ms in PERMUTED:
        for m in ms:
            for f in methods(ctx, mod, ty, m):
                g = ctx.graph(f, key='perm', opaque=lambda x: opaque(x) or x.key.rsplit('::', 1)[-1] in ('permutate', 'node_path', 'edge_path') and '::ch_potentials::' not in x.key)
                qs = query_terms(g)
                name = fname(f) + impl_tag(f)
                cnt += 1
                if not qs:
                    ctx.ob('permuted-once', name, False, 'the external node ids of the query are never translated into ranks', g.root)
                    continue
                for q in qs:
                    perm = [n for n in g.events('call') if n.d['method'] == 'permutate' and n.d['args'][0] == q]
                    ids = {('fld', q, 'from'), ('fld', q, 'to')}

                    def carries(t):
                        return any(x in ids or x == q or x[0] == 'call' and tail(x) in ('from', 'to') and x[2] and x[2][0] == q for x in subterms(t))

                    def sensitive(n):
                        if n.kind == 'call' and not n.d.get('inl') and n.d['method'] not in QFREE and not n.d['key'].startswith(('core::fmt', 'fmt', 'report', 'std::fmt')):
                            return any(isinstance(a, tuple) and carries(a) for a in n.d['args'])
                        if n.kind == 'index':
                            return any(isinstance(a, tuple) and a and a[0] == 'idx' and carries(a[2]) for a in n.d.values())
                        return False
                    p = uncut(g, g.root, sensitive, Cut(nodes=perm))
                    ctx.ob('permuted-once', name, p is None, 'node ids of the query are used on a path on which the query was not permuted', p[-1] if p else None, p)
                    tw = None
                    for n in perm:
                        for s, c in n.succ:
                            tw = tw or uncut(g, s, lambda x: x in perm, Cut())
                    ctx.ob('permuted-once', name + ':twice', tw is None, 'the query is permuted twice on one path', tw[-1] if tw else None, tw)
    ctx.ob('count-floor', 'permuted queries', cnt >= 9, 'only %d entry points with a permuted query found' % cnt)


def r_paths(ctx):
    for mod, ty, m in PATHS:
        for f in methods(ctx, mod, ty, m):
            g = ctx.graph(f, key='ids', opaque=opaque)
            S = Sorts(g)
            name = fname(f) + impl_tag(f)
            report(ctx, 'no-mixed-spaces', name, S)
            good = 0
            for e in [x for x in g.events('ret') if x.ctx == 0]:
                v = e.d['value']
                labs = set()
                for t in [v] + list(g.A.phis.get(v, [])):
                    for k in (S.V(t), S.cls(('fld', ('elem', t), '0'))):
                        labs |= set(S.lab.get(S.find(k), {}))
                conv = [(n, pl) for n, c, l in S.conv if l == EXT for pl in [n.d['place']] if any(x == v for x in subterms(pl))]
                if labs == {EXT} and not conv:
                    good += 1
                    ctx.ob('returned-path', name, True)
                    continue
                if not labs and not conv:
                    continue
                cut = Cut(nodes=[], edges=[])
                edges, nodes = [], []
                for n, pl in conv:
                    el = pl
                    while el[0] == 'fld':
                        el = el[1]
                    if any(strip_iter(x) == el[1] for x in g.A.partial):
                        continue
                    if el[0] == 'idx' and el[2][0] == 'elem' and full_range(el[2][1], el[1]):
                        el = el[2]
                    hs = loop_heads(g, lambda x, c: x == el)
                    if not hs:
                        nodes.append(n)
                    for h, b, out in hs:
                        if uncut(g, b, lambda x: x is h, Cut(nodes=[n])) is None and uncut(g, b, exits(g), Cut(nodes=[n, h])) is None:
                            edges += out
                p = uncut(g, g.root, lambda x: x is e, Cut(nodes=nodes, edges=edges))
                good += p is None
                ctx.ob('returned-path', name, p is None, 'a path of ranks is returned without translating every node into its external id', e, p)
                if len(conv) > 1:
                    tw = None
                    ns = [n for n, _ in conv]
                    for i, n in enumerate(ns):
                        for n2 in ns:
                            if n2 is not n:
                                tw = tw or uncut(g, n, lambda x: x is n2, Cut())
                    ctx.ob('returned-path', name + ':twice', tw is None, 'the returned path is translated twice', e, tw)
            ctx.ob('returned-path', name + ':decided', good > 0, 'no return of a translated path was found', g.root)
    for mod, ty, m in SINGLE:
        for f in methods(ctx, mod, ty, m):
            g = ctx.graph(f, key='ids', opaque=opaque)
            n_ext = 0
            for e in g.events('ret'):
                if e.ctx != 0:
                    continue
                for v, es in g.cases(e.d['value']):
                    while v[0] == 'cast':
                        v = v[-1]
                    if v[0] == 'idx' and (v[1][0] == 'fld' and v[1][2] == 'node_order' or is_call(v[1], 'order')) or is_call(v, 'node'):
                        n_ext += 1
                        ctx.ob('returned-node', fname(f), True)
                        continue
                    if v[0] == 'const':
                        continue
                    # only the out of range marker of a node without predecessor may be passed through

                    def marker(t, pol):
                        if t[0] == 'bin' and t[1] in ('Lt', 'Ge', 'Eq') and strip_cast(t[2]) == v:
                            return pol == (t[1] != 'Lt')
                        if t[0] == 'is' and mentions(t[1], v):
                            return (t[2] == 'None') == pol
                        return False
                    cut = Cut(conds=marker)
                    p = g.path_via(es, e, avoid=cut.node, edge_ok=cut.edge_ok)
                    ctx.ob('returned-node', fname(f), p is None, '%s, a rank, is returned where callers expect an external id' % show(v)[:100], e, p)
            ctx.ob('returned-node', fname(f) + ':decided', n_ext > 0, 'no translated node is returned', g.root)


def strip_cast(t):
    while t[0] == 'cast':
        t = t[-1]
    return t


RULES = [('spaces', r_spaces), ('permute', r_permute), ('paths', r_paths)]
