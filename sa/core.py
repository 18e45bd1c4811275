"""Inlining value-flow analysis over MIR.

For an entry function it computes, by an ordinary dataflow fixpoint (no execution, no solver):
 * an abstract value (an access path / value-flow term) for every local at every program point,
   with phi terms at joins; control flow is split on locals holding a known bool / enum variant,
 * the interprocedural control flow graph with one node per event (write, call, index, arithmetic, return, panic),
   workspace callees and closures being inlined (bounded depth, no recursion).
Rules are queries over that graph.
"""
import re
from program import callee as parse_callee, short, strip_refs, base_path, strip_generics, CLOSURE_RE, generic_args
import mir

NONE = ('agg', 'Option', 'None', ())
UNIT = ('const', '()')
BOT = ('bot',)
TRUE = ('const', True)
FALSE = ('const', False)


def some(x):
    return ('agg', 'Option', 'Some', (('0', x),))


def ok(x):
    return ('agg', 'Result', 'Ok', (('0', x),))


def err(x):
    return ('agg', 'Result', 'Err', (('0', x),))


def tup(*xs):
    return ('agg', '()', None, tuple((str(i), x) for i, x in enumerate(xs)))


STD_VARIANTS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
    'Cow': ['Borrowed', 'Owned'], 'Either': ['Left', 'Right'], 'Entry': ['Occupied', 'Vacant'],
    'Poll': ['Ready', 'Pending'], 'Ordering': ['Less', 'Equal', 'Greater'],
}

TRANSPARENT = {
    'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_slice', 'as_mut_slice', 'by_ref', 'to_owned', 'as_deref', 'as_deref_mut',
    'into_boxed_slice', 'into_vec', 'as_ptr', 'as_mut_ptr', 'lock', 'read', 'get_mut', 'into_inner', 'as_bytes',
}
ITER_PASS = {'rev', 'skip', 'take', 'cloned', 'copied', 'peekable', 'by_ref', 'step_by', 'fuse', 'into_par_iter', 'into_iter', 'with_min_len', 'with_max_len', 'cycle', 'skip_while', 'take_while', 'iter', 'iter_mut',
             'par_iter', 'par_iter_mut', 'drain'}

PARTIAL = {'skip', 'take', 'step_by', 'skip_while', 'take_while', 'filter', 'filter_map', 'map_while', 'flat_map'}

SCALARS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'f32', 'f64', 'char'}


BOXLIKE = re.compile(r'(std|core|alloc)::(boxed::Box|ptr::Unique|ptr::NonNull|ptr::unique::Unique|ptr::non_null::NonNull)<')


class Fix:
    __slots__ = ('states', 'rets', 'keys', 'edges')


class Node:
    __slots__ = ('id', 'kind', 'd', 'succ', 'fn', 'span', 'ctx')

    def __init__(self, id, kind, d, fn, span, ctx):
        self.id = id
        self.kind = kind
        self.d = d
        self.succ = []
        self.fn = fn
        self.span = span
        self.ctx = ctx

    def __repr__(self):
        return 'N%d %s %s @%s' % (self.id, self.kind, show(self.d), loc(self.span))


def loc(span):
    m = re.match(r'(.*?):(\d+):', span or '')
    return '%s:%s' % (m.group(1), m.group(2)) if m else (span or '?')


def show(t, depth=6):
    if isinstance(t, dict):
        return '{' + ', '.join('%s: %s' % (k, show(v, depth)) for k, v in t.items() if k not in ('callee',)) + '}'
    if isinstance(t, (list, tuple)) and t and isinstance(t[0], str):
        if depth <= 0:
            return '…'
        k = t[0]
        d = depth - 1
        if k == 'arg':
            return 'arg%s' % (t[1],)
        if k == 'was':
            return 'old ' + show(t[1], depth)
        if k == 'loc':
            return 'cell%d.%d' % (t[1], t[2])
        if k == 'fld':
            return '%s.%s' % (show(t[1], d), t[2])
        if k == 'idx':
            return '%s[%s]' % (show(t[1], d), show(t[2], d))
        if k == 'slice':
            return '%s[[%s]]' % (show(t[1], d), show(t[2], d))
        if k == 'const':
            return str(t[1])
        if k == 'bin':
            return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
        if k == 'un':
            return '%s(%s)' % (t[1], show(t[2], d))
        if k == 'call':
            return '%s(%s)' % (t[1], ', '.join(show(x, d) for x in t[2]))
        if k == 'agg':
            return '%s%s{%s}' % (t[1], '::' + t[2] if t[2] else '', ', '.join('%s: %s' % (f, show(x, d)) for f, x in t[3]))
        if k == 'elem':
            return 'elem(%s)' % show(t[1], d)
        if k == 'phi':
            return 'phi%d' % t[1]
        if k == 'closure':
            return 'closure@%s' % t[1].split(': ')[0].split('/')[-1]
        if k == 'is':
            return '%s is %s' % (show(t[1], d), t[2])
        return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))
    if isinstance(t, (list, tuple)):
        return '[' + ', '.join(show(x, depth - 1) for x in t) + ']'
    return str(t)


class Analysis:
    def __init__(self, prog, opaque=None, inline=None, max_depth=7, max_nodes=400000):
        """opaque: predicate(func)->bool: do not inline.  inline: predicate overriding the default opaque set."""
        self.P = prog
        self.max_depth = max_depth
        self.opaque_pred = opaque
        self.inline_pred = inline
        self.interned = {}
        self.partial = set()     # iterators / containers only part of whose elements an adaptor lets through
        self.phis = {}
        self.celldefs = {}
        self.cellfields = {}
        self.memo = {}
        self.dirty = False
        self.max_nodes = max_nodes
        self.inlined_fns = set()
        self.opaque_calls = {}
        self.live_cache = {}
        self.cell_cache = {}
        self.depthcache = {}
        self.typeof = {}   # term -> type text of its last definition (best effort)

    # ------------------------------------------------------------------ utilities
    def intern(self, key):
        i = self.interned.get(key)
        if i is None:
            i = self.interned[key] = len(self.interned)
        return i

    def tdepth(self, t):
        if not isinstance(t, tuple):
            return 0
        d = self.depthcache.get(t)
        if d is None:
            d = 1 + max([self.tdepth(x) for x in t] or [0])
            self.depthcache[t] = d
        return d

    def cap(self, t):
        if self.tdepth(t) > 26:
            return ('big', self.intern(('big', t)))
        return t

    def phi_add(self, key, *members):
        i = self.intern(key)
        t = ('phi', i)
        s = self.phis.setdefault(t, [])
        for m in members:
            if m != t and m != BOT and m not in s:
                s.append(m)
                self.dirty = True
        if len(s) > 24:
            pass
        return t

    def alternatives(self, t, limit=40):
        """all non-phi terms a term may stand for (cells are expanded to their definitions as well)"""
        seen = set()
        out = []
        todo = [t]
        while todo and len(out) < limit:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'phi':
                todo.extend(self.phis.get(x, []))
            elif x[0] == 'loc':
                d = self.celldefs.get(x)
                if d:
                    todo.extend(d)
                else:
                    out.append(x)
            else:
                out.append(x)
        return out

    def tag(self, t):
        if t[0] == 'const' and isinstance(t[1], bool):
            return t[1]
        if t[0] == 'agg' and t[2] is not None:
            # nested known variants matter for tuples of options etc.
            return t[2]
        if t[0] == 'agg' and t[1] == '()' and t[3]:
            s = tuple(self.tag(x) for _, x in t[3])
            return s if any(x is not None for x in s) else None
        return None

    # ------------------------------------------------------------------ term constructors
    def fld(self, base, name, ty=None, _d=0):
        k = base[0]
        if k == 'agg':
            if '.' in name:
                v, f = name.rsplit('.', 1)
                if base[2] is not None and base[2] != v:
                    return BOT
                name2 = f
            else:
                name2 = name
            for f, x in base[3]:
                if f == name2:
                    return x
            if not base[3] and base[2] is None:
                return ('fld', base, name)
            return ('fld', base, name)
        if k == 'phi' and _d < 6:
            mem = self.phis.get(base, [])
            rs = []
            for m in list(mem):
                r = self.fld(m, name, ty, _d + 1) if m[0] != 'phi' or _d < 3 else ('fld', m, name)
                if r != BOT and r not in rs:
                    rs.append(r)
            if len(rs) == 1 and len(mem) > 0:
                return rs[0]
            if len(rs) > 1 and any(m[0] == 'agg' for m in mem):
                return self.phi_add(('pf', base, name), *rs)
            return ('fld', base, name)
        if k == 'loc':
            fd = self.cellfields.get((base, name))
            if fd and len(fd) == 1 and ty is not None and (ty.startswith('&') or ty.startswith('*') or '[closure@' in ty):
                return next(iter(fd))
            cd = self.celldefs.get(base)
            if cd and len(cd) == 1 and not fd:
                d = cd[0]
                if d[0] == 'agg' or d[0] == 'phi' or d[0] == 'loc':
                    r = self.fld(d, name, ty, _d + 1)
                    if ty is not None and (ty.startswith('&') or ty.startswith('*') or '[closure@' in ty) and r != BOT:
                        return r
                elif d[0] in ('call', 'iter', 'elem') and d[0] != 'call':
                    return self.fld(d, name, ty, _d + 1)
            return ('fld', base, name)
        if k == 'call':
            m = base[1].rsplit('.', 1)[-1]
            if name == 'Some.0':
                if m in ('next', 'next_back', 'peek', 'peek_mut') and base[2]:
                    return self.elem(base[2][0], base[3])
                if m in ('get', 'get_mut') and len(base[2]) == 2:
                    return ('idx', base[2][0], base[2][1])
                if m in ('last', 'last_mut') and len(base[2]) == 1:
                    return ('idx', base[2][0], ('const', 'last'))
                if m in ('first', 'first_mut') and len(base[2]) == 1:
                    return ('idx', base[2][0], ('const', 0))
                if m in ('max', 'min', 'find', 'max_by_key', 'min_by_key', 'last', 'nth') and base[2] and self.is_iter(base[2][0]):
                    return self.elem(base[2][0], base[3])
            if m == 'branch' and name == 'Continue.0':
                x = base[2][0]
                return self.fld(x, 'Some.0' if base[1].startswith('Option') else 'Ok.0', ty)
            if m == 'branch' and name == 'Break.0':
                return ('residual', base[2][0])
        if k == 'elem' and base[1][0] == 'call' and base[1][1].rsplit('.', 1)[-1] == 'enumerate':
            pass
        return self.cap(('fld', base, name))

    def is_iter(self, t):
        return t[0] in ('iter', 'zip', 'enum', 'mapit', 'chain', 'flat')

    def obj(self, t):
        """identity of an iterator-like object behind a cell"""
        n = 0
        while t[0] == 'loc' and n < 8:
            d = self.celldefs.get(t)
            if d and len(d) == 1:
                t = d[0]
            else:
                break
            n += 1
        return t

    def elem(self, it, site):
        it = self.obj(it)
        k = it[0]
        if k == 'iter':
            return self.elem(it[1], site) if self.is_iter(it[1]) else ('elem', it[1], site)
        if k == 'zip':
            return tup(self.elem(it[1], site), self.elem(it[2], site))
        if k == 'enum':
            return tup(('ctr', it[1], site), self.elem(it[1], site))
        if k == 'mapit':
            return it[2]
        if k == 'chain':
            return self.phi_add(('chain', it, site), self.elem(it[1], site), self.elem(it[2], site))
        if k == 'phi':
            ms = self.phis.get(it, [])
            rs = []
            for m in ms:
                if m[0] == 'phi':
                    return ('elem', it, site)
                r = self.elem(m, site)
                if r not in rs:
                    rs.append(r)
            if len(rs) == 1:
                return rs[0]
            if rs:
                return self.phi_add(('elemphi', it, site), *rs)
        return ('elem', it, site)

    def binop(self, op, a, b):
        if op.startswith('Checked'):
            return tup(self.binop(op[7:], a, b), FALSE)
        if a[0] == 'const' and b[0] == 'const' and isinstance(a[1], (int, bool)) and isinstance(b[1], (int, bool)):
            x, y = a[1], b[1]
            try:
                if op == 'Eq':
                    return ('const', x == y)
                if op == 'Ne':
                    return ('const', x != y)
                if op == 'Lt':
                    return ('const', x < y)
                if op == 'Le':
                    return ('const', x <= y)
                if op == 'Gt':
                    return ('const', x > y)
                if op == 'Ge':
                    return ('const', x >= y)
                if not isinstance(x, bool):
                    if op == 'Add':
                        return ('const', x + y)
                    if op == 'Mul':
                        return ('const', x * y)
                    if op == 'Div' and y:
                        return ('const', x // y)
                    if op == 'Sub' and x >= y:
                        return ('const', x - y)
            except Exception:
                pass
        if op == 'Ne':
            return ('un', 'Not', ('bin', 'Eq', a, b))
        if op == 'Gt':
            return ('bin', 'Lt', b, a)
        if op == 'Ge':
            return ('un', 'Not', ('bin', 'Lt', a, b))
        if op == 'Le':
            return ('un', 'Not', ('bin', 'Lt', b, a))
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'min', 'max'):
            if repr(b) < repr(a):
                a, b = b, a
        return self.cap(('bin', op, a, b))

    def unop(self, op, a):
        if op == 'Not':
            if a[0] == 'const' and isinstance(a[1], bool):
                return ('const', not a[1])
            if a[0] == 'un' and a[1] == 'Not':
                return a[2]
        return ('un', op, a)

    def cond(self, t, val):
        """canonical (term, polarity)"""
        while t[0] == 'un' and t[1] == 'Not':
            t = t[2]
            val = not val
        return (t, val)

    # ------------------------------------------------------------------ constants
    def const(self, text, rec):
        t = text.strip()
        if t == 'true':
            return TRUE
        if t == 'false':
            return FALSE
        m = re.match(r'^(-?\d+)_[iu](8|16|32|64|128|size)$', t)
        if m:
            return ('const', int(m.group(1)))
        if t == '_' or t == 'const _':
            if rec is not None and rec[3]:
                nm = strip_generics(rec[3][0]).split('::')[-1]
                if nm and '{constant' not in nm and not re.match(r'promoted', rec[3][0]):
                    if nm.isupper() or len(nm) == 1:
                        return ('const', nm)
                    # a promoted constant is named after its function: the source says which constant it is
                    names = set(re.findall(r"\b(?:\w+::)*([A-Z][A-Z0-9_]{2,}|MAX|MIN)\b", self.P.snippet(rec[1])))
                    return self.named(names.pop()) if len(names) == 1 else ('const', nm)
            sn = self.P.snippet(rec[1]) if rec is not None else ''
            names = re.findall(r"\b(?:\w+::)*([A-Z][A-Z0-9_]{2,}|MAX|MIN)\b", sn)
            names = [n for n in names]
            if len(set(names)) == 1:
                return self.named(names[0])
            if rec is not None and 'from_elem' in str(rec[0]) + str(rec[2]) and rec[1].startswith('/') and len(rec) > 4:
                # vec![CONST; n]: the macro call around the length expression
                names = self.P.vec_macro(rec[4])
                if names:
                    return self.named(names)
            return ('const', '?' + ','.join(sorted(set(names))))
        if t.startswith('"'):
            return ('str', t[1:-1])
        m = re.match(r'^(-?[\d.]+(?:E[-+]?\d+)?)f(32|64)$', t)
        if m:
            return ('const', t)
        if re.match(r'^[\w:<>, \[\]&\']*$', t) and '::' in t and '(' not in t:
            p = strip_generics(t) if not t.startswith('<') else t
            return ('fnitem', t)
        if t == '()':
            return UNIT
        return ('const', t)

    def named(self, n):
        return ('const', n)

    # ------------------------------------------------------------------ liveness, cells
    def liveness(self, f):
        r = self.live_cache.get(f.key)
        if r is not None:
            return r
        f.parse()
        use = {}
        defs = {}

        def locs(x, acc):
            if isinstance(x, mir.Place):
                acc.add(x.local)
                for p in x.proj:
                    if p[0] == 'index':
                        acc.add(p[1])
            elif isinstance(x, (tuple, list)):
                for y in x:
                    locs(y, acc)
        for b, recs in f.blocks.items():
            if recs is None:
                continue
            u = set()
            d = set()
            for r in recs:
                s = r[2]
                su = set()
                sd = None
                if s[0] == 'assign':
                    locs(s[2], su)
                    if s[1].proj:
                        su.add(s[1].local)
                        locs(s[1], su)
                    else:
                        sd = s[1].local
                elif s[0] == 'call':
                    locs(s[3], su)
                    if s[2].startswith('move _') or s[2].startswith('copy _'):
                        su.add(int(re.match(r'\w+ _(\d+)', s[2]).group(1)))
                    if s[1].proj:
                        locs(s[1], su)
                    else:
                        sd = s[1].local
                elif s[0] == 'deinit':
                    sd = s[1].local if not s[1].proj else None
                    if s[1].proj:
                        locs(s[1], su)
                elif s[0] == 'setdisc':
                    locs(s[1], su)
                elif s[0] in ('switch', 'assert'):
                    locs(s[1], su)
                elif s[0] == 'return':
                    su.add(0)
                u |= (su - d)
                if sd is not None and sd not in su:
                    d.add(sd)
            use[b] = u
            defs[b] = d
        livein = {b: set(use[b]) for b in use}
        # predecessors
        ch = True
        order = sorted(use, reverse=True)
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in f.succs(b):
                    o |= livein.get(s, set())
                n = use[b] | (o - defs[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        self.live_cache[f.key] = livein
        return livein

    def cells(self, f):
        """locals whose address is taken mutably -> number of whole assignments"""
        r = self.cell_cache.get(f.key)
        if r is not None:
            return r
        f.parse()
        taken = set()
        nassign = {}
        for b, recs in f.blocks.items():
            for r in recs or []:
                s = r[2]
                if s[0] == 'assign' and s[2][0] == 'ref' and s[2][1] in ('mut', 'rawmut'):
                    p = s[2][2]
                    if not any(x[0] == 'deref' for x in p.proj):
                        taken.add(p.local)
                if s[0] in ('assign', 'call') and not s[1].proj:
                    nassign[s[1].local] = nassign.get(s[1].local, 0) + 1
                if s[0] == 'deinit' and not s[1].proj:
                    nassign[s[1].local] = nassign.get(s[1].local, 0) + 1
        for a in f.args:
            nassign[a] = nassign.get(a, 0) + 1
        res = {l: nassign.get(l, 0) for l in taken}
        self.cell_cache[f.key] = res
        return res

    # ------------------------------------------------------------------ places
    def elem_type(self, ty):
        t = strip_refs(ty)
        if t.startswith('['):
            inner = t[1:-1]
            return mir.split_top(inner, ';')[0]
        return t

    def read_place(self, env, pl):
        f = env.f
        t = env.get(pl.local)
        ty = f.types.get(pl.local, '')
        dc = None
        for p in pl.proj:
            if p[0] == 'deref':
                ty = deref_ty(ty)
            elif p[0] == 'field':
                if dc is None and BOXLIKE.match(ty):
                    ty = p[2]
                    continue
                if dc is not None:
                    name = dc + '.' + str(p[1])
                else:
                    name = self.P.field_name(ty, p[1])
                t = self.fld(t, name, p[2])
                ty = p[2]
                dc = None
            elif p[0] == 'dc':
                dc = p[1]
            elif p[0] == 'index':
                t = self.cap(('idx', t, env.get(p[1])))
                ty = self.elem_type(ty)
            elif p[0] == 'cidx':
                m = re.match(r'(-?\d+) of', p[1])
                if m:
                    t = ('idx', t, ('const', int(m.group(1)))) if int(m.group(1)) >= 0 else ('idx', t, ('const', 'last'))
                    ty = self.elem_type(ty)
                else:
                    t = ('slice', t, ('const', p[1]))
        return t, ty

    def operand(self, env, op, rec):
        if op[0] == 'use':
            return self.read_place(env, op[1])[0]
        return self.const(op[1], rec)

    def optype(self, env, op):
        if op[0] == 'use':
            return self.read_place(env, op[1])[1]
        m = re.match(r'^-?\d+_(\w+)$', op[1].strip())
        return m.group(1) if m else ''

    def set_agg(self, base, path, val):
        """functional update"""
        if not path:
            return val
        name = path[0]
        if base is None or base[0] != 'agg':
            base = ('agg', '?', None, ()) if base is None or base == BOT else ('agg', 'upd', None, (('__base', base),))
        f = name.split('.')[-1] if '.' in name else name
        variant = base[2]
        if '.' in name:
            variant = name.rsplit('.', 1)[0]
        items = []
        found = False
        for k, v in base[3]:
            if k == f:
                items.append((k, self.set_agg(v, path[1:], val)))
                found = True
            else:
                items.append((k, v))
        if not found:
            items.append((f, self.set_agg(None, path[1:], val)))
        return ('agg', base[1], variant, tuple(items))

    def write_place(self, env, pl, val, rec, emit):
        f = env.f
        if not pl.proj:
            self.assign_local(env, pl.local, val, rec, emit)
            return
        has_deref = any(p[0] == 'deref' for p in pl.proj)
        has_index = any(p[0] in ('index', 'cidx') for p in pl.proj)
        cell = env.is_cell(pl.local)
        if not has_deref and not has_index:
            # names
            ty = f.types.get(pl.local, '')
            path = []
            dc = None
            for p in pl.proj:
                if p[0] == 'dc':
                    dc = p[1]
                else:
                    path.append((dc + '.' + str(p[1])) if dc else self.P.field_name(ty, p[1]))
                    ty = p[2]
                    dc = None
            cur = env.s.get(pl.local)
            if cell:
                base = env.cellterm(pl.local)
                t = base
                for n in path[:-1]:
                    t = self.fld(t, n)
                if len(path) == 1:
                    l = self.cellfields.setdefault((base, path[0]), [])
                    if val not in l:
                        l.append(val)
                        self.dirty = True
                place = ('fld', t, path[-1])
                emit('write', {'place': place, 'value': val, 'init': env.s.get(pl.local) == ('raw',)}, rec)
                return
            if cur is not None and cur[0] in ('arg', 'fld', 'elem', 'loc', 'idx', 'call', 'phi') and cur[0] != 'agg':
                # updating part of a by-value object with an identity
                if cur[0] != 'phi':
                    t = cur
                    for n in path[:-1]:
                        t = self.fld(t, n)
                    emit('write', {'place': ('fld', t, path[-1]), 'value': val, 'local': True}, rec)
                    return
            env.s[pl.local] = self.set_agg(cur, path, val)
            return
        t, _ = self.read_place_addr(env, pl)
        emit('write', {'place': t, 'value': val}, rec)
        if t[0] == 'loc':
            self.outdate(env, t)

    def outdate(self, env, cell):
        """named scalar copies of a cell keep the value it had before the write"""
        f = env.f
        named = getattr(f, 'user', None)
        if named is None:
            named = f.user = {int(x[1:]) for v in f.debug.values() for x in v if re.match(r'_\d+$', x) and f.types.get(int(x[1:])) in SCALARS}
        for l in named:
            v = env.s.get(l)
            if v is not None and l not in env.cells and self.has(v, cell):
                env.s[l] = self.renew(v, cell)

    def has(self, t, sub):
        if t == sub:
            return True
        if t[0] == 'was':
            return False
        return any(self.has(x, sub) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
            any(self.has(y, sub) for x in t[1:] if isinstance(x, tuple) for y in x if isinstance(y, tuple) and y and isinstance(y[0], str))

    def renew(self, t, cell):
        if t == cell:
            return ('was', t)
        if not t or t[0] == 'was':
            return t
        return tuple(self.renew(x, cell) if isinstance(x, tuple) and x else x for x in t)

    def read_place_addr(self, env, pl):
        """address term: like read_place, but the last projection is kept symbolic"""
        if not pl.proj:
            return env.get(pl.local), env.f.types.get(pl.local, '')
        last = pl.proj[-1]
        if last[0] == 'deref':
            return self.read_place(env, mir.Place(pl.local, pl.proj[:-1]))
        # strip an eventual dc before the field
        cut = -1
        dc = None
        if last[0] == 'field' and len(pl.proj) > 1 and pl.proj[-2][0] == 'dc':
            cut = -2
            dc = pl.proj[-2][1]
        base, ty = self.read_place(env, mir.Place(pl.local, pl.proj[:cut]))
        if last[0] == 'field':
            name = (dc + '.' + str(last[1])) if dc else self.P.field_name(ty, last[1])
            if base[0] == 'agg':
                # pointer fields of an aggregate built here
                x = self.fld(base, name, last[2])
                return x, last[2]
            return ('fld', base, name), last[2]
        if last[0] == 'index':
            return ('idx', base, env.get(last[1])), ''
        return ('idx', base, ('const', last[1])), ''

    def assign_local(self, env, l, val, rec, emit):
        n = env.cells.get(l)
        if n is not None:
            ty = env.f.types.get(l, '')
            if n <= 1 and ty not in SCALARS and val[0] not in ('agg', 'const', 'bin', 'un', 'phi', 'raw', 'str'):
                env.s[l] = val
                return
            t = env.cellterm(l)
            env.s[l] = t
            if val != t and val != ('raw',):
                d = self.celldefs.setdefault(t, [])
                if val not in d:
                    d.append(val)
                    self.dirty = True
                emit('write', {'place': t, 'value': val, 'cell': True}, rec)
                self.outdate(env, t)
            return
        env.s[l] = val

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, env, r, rec, emit, pl=None):
        k = r[0]
        if k == 'use':
            t, ty = self.read_place(env, r[1])
            return t
        if k == 'const':
            return self.const(r[1], rec)
        if k == 'ref':
            p = r[2]
            if not p.proj:
                return env.get(p.local)
            t, _ = self.read_place_addr(env, p)
            return t
        if k == 'bin':
            a = self.operand(env, r[2], rec)
            b = self.operand(env, r[3], rec)
            ty = self.optype(env, r[2]) or self.optype(env, r[3])
            t = self.binop(r[1], a, b)
            if r[1] in ('Add', 'Sub', 'Mul', 'Shl', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'Div', 'Rem'):
                emit('arith', {'op': r[1].replace('Checked', ''), 'a': a, 'b': b, 'ty': ty, 'result': t}, rec)
            return t
        if k == 'un':
            return self.unop(r[1], self.operand(env, r[2], rec))
        if k == 'cast':
            a = self.operand(env, r[1], rec)
            if r[3].startswith('Pointer'):
                return a
            if r[3] in ('IntToInt',):
                src = self.optype(env, r[1])
                if narrowing(src, r[2]):
                    emit('cast', {'a': a, 'from': src, 'to': r[2]}, rec)
                return a
            if r[3] in ('PtrToPtr', 'Misc', 'Transmute'):
                return a
            return ('call', 'cast', (a, ('const', r[2])), None)
        if k == 'len':
            return ('len', self.read_place(env, r[1])[0])
        if k == 'disc':
            t, ty = self.read_place(env, r[1])
            return self.disc(t, ty)
        if k == 'tuple':
            return tup(*[self.operand(env, x, rec) for x in r[1]])
        if k == 'array':
            return ('agg', '[]', None, tuple((str(i), self.operand(env, x, rec)) for i, x in enumerate(r[1])))
        if k == 'repeat':
            return ('call', 'repeat', (self.operand(env, r[1], rec), ('const', r[2])), None)
        if k == 'agg':
            return ('agg', short(r[1]), None, tuple((f, self.operand(env, x, rec)) for f, x in r[2]))
        return ('opq', self.intern(('opq', env.ctx, rec[1] if rec else '', r[1] if isinstance(r[1], str) else '', repr(pl))))

    def variants(self, ty):
        s = short(ty)
        if s in STD_VARIANTS:
            return STD_VARIANTS[s]
        p = base_path(ty)
        for q in (p, p.replace('rust_road_router::', '', 1)):
            if q in self.P.enums:
                return self.P.enums[q]
        c = [v for k, v in self.P.enums.items() if k.split('::')[-1] == s]
        return c[0] if len(c) == 1 else None

    def disc(self, t, ty):
        if t[0] == 'agg' and t[2] is not None:
            vs = self.variants(ty)
            if vs and t[2] in vs:
                return ('const', vs.index(t[2]))
        return ('disc', t, ty)

    # ------------------------------------------------------------------ function analysis
    def should_inline(self, g, depth, stack):
        if depth >= self.max_depth or g.key in stack:
            return False
        if self.inline_pred is not None:
            r = self.inline_pred(g)
            if r is not None:
                return r
        if self.opaque_pred is not None and self.opaque_pred(g):
            return False
        n = g.key
        if n.startswith('report::') or '::fmt' in n:
            return False
        imp = g.impl
        if imp is not None and imp[1] in ('Clone', 'Debug', 'PartialEq', 'PartialOrd', 'Ord', 'Eq', 'Hash', 'Default') and not self.P.snippet(getattr(g, 'implspan', '')).startswith('impl'):
            return False
        return True

    def analyze(self, f, args, ctx, depth, stack):
        key = (ctx, f.key, args)
        r = self.memo.get(key)
        if r is not None:
            return r
        f.parse()
        self.inlined_fns.add(f.key)
        live = self.liveness(f)
        cells = self.cells(f)
        fix = Fix()
        fix.states = {}
        fix.rets = {}
        fix.edges = {}
        init = {}
        env0 = Env(self, f, init, ctx, cells)
        for l, t in zip(f.args, args):
            if l in cells and (f.types.get(l, '') in SCALARS or t[0] == 'agg'):
                self.assign_local(env0, l, t, None, _noemit)
            else:
                init[l] = t
        nkeys = {}
        start = self.bkey(f, 0, init, live, nkeys)
        fix.states[start] = init
        work = [start]
        visits = 0
        fixstart = start
        queued = {start}
        contrib = {start: {(None, 0): dict(init)}}
        count = {start: 1}
        while work:
            work.sort(key=lambda k: k[0], reverse=True)
            k = work.pop()
            queued.discard(k)
            visits += 1
            if visits > 6000:
                break
            outs = self.run_block(f, k, dict(fix.states[k]), ctx, cells, depth, stack, _noemit, None)
            nth = {}
            for c in contrib.values():
                for kk in [x for x in c if x[0] == k]:
                    del c[kk]
            for (b, st, conds, _) in outs['succ']:
                if b is None:
                    raise RuntimeError('no successor: %s %s %s' % (f.key, k[0], f.blocks[k[0]][-1][:2]))
                sk = self.bkey(f, b, st, live, nkeys)
                old = fix.states.get(sk)
                lv = live.get(b, ())
                st = {l: t for l, t in st.items() if l in lv or l in cells}
                con = contrib.setdefault(sk, {})
                nth[b] = nth.get(b, 0) + 1
                con[(k, nth[b])] = st
                if old is None:
                    fix.states[sk] = dict(st)
                    count[sk] = 1
                    ch = True
                else:
                    count[sk] += 1
                    if count[sk] > 30:
                        ch = self.join(old, st, (ctx, sk))
                    else:
                        new = self.rejoin(list(con.values()), (ctx, sk))
                        ch = new != old
                        fix.states[sk] = new
                if ch and sk not in queued:
                    work.append(sk)
                    queued.add(sk)
            for rt in outs['ret']:
                tg = self.tag(rt)
                if tg in fix.rets:
                    fix.rets[tg] = self.merge(fix.rets[tg], rt, ('ret', ctx, f.key, args if self.tdepth(args) < 20 else 0, tg), ())
                else:
                    fix.rets[tg] = rt
        fix.keys = (fixstart, nkeys)
        self.memo[key] = fix
        return fix

    def bkey(self, f, b, st, live, nkeys):
        facts = []
        for l in sorted(live.get(b, ())):
            t = st.get(l)
            if t is None:
                continue
            tg = self.tag(t)
            if tg is not None:
                facts.append((l, tg))
        k = (b, tuple(facts))
        s = nkeys.setdefault(b, set())
        if k not in s:
            if len(s) >= 14:
                return (b, 'any')
            s.add(k)
        return k

    def merge(self, a, b, key, path):
        if a == b:
            return a
        if a == BOT:
            return b
        if b == BOT:
            return a
        pk = ('j', key, path)
        pid = ('phi', self.intern(pk))
        if a == pid:
            return self.phi_add(pk, b)
        if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and a[2] == b[2] and [k for k, _ in a[3]] == [k for k, _ in b[3]] and len(path) < 5:
            return ('agg', a[1], a[2], tuple((k, self.merge(x, y, key, path + (k,))) for (k, x), (_, y) in zip(a[3], b[3])))
        return self.phi_add(pk, a, b)

    def join(self, old, new, key):
        ch = False
        for l in list(old):
            if l not in new:
                continue
            m = self.merge(old[l], new[l], key, (l,))
            if m != old[l]:
                old[l] = m
                ch = True
        for l in new:
            if l not in old:
                old[l] = new[l]
                ch = True
        return ch

    def mergen(self, vals, key, path):
        vs = []
        for v in vals:
            if v != BOT and v not in vs:
                vs.append(v)
        if not vs:
            return BOT
        if len(vs) == 1:
            return vs[0]
        pk = ('j', key, path)
        pid = ('phi', self.intern(pk))
        a = vs[0]
        if a[0] == 'agg' and len(path) < 5 and all(b[0] == 'agg' and a[1] == b[1] and a[2] == b[2] and [k for k, _ in a[3]] == [k for k, _ in b[3]] for b in vs[1:]):
            return ('agg', a[1], a[2], tuple((k, self.mergen([dict(b[3])[k] for b in vs], key, path + (k,))) for k, _ in a[3]))
        mem = [v for v in vs if v != pid]
        if len(mem) == 1:
            return mem[0]
        if self.phis.get(pid) != mem:
            if set(self.phis.get(pid, ())) != set(mem):
                self.dirty = True
            self.phis[pid] = mem
        return pid

    def rejoin(self, states, key):
        if len(states) == 1:
            return dict(states[0])
        res = {}
        ls = {}
        for s in states:
            for l in s:
                ls.setdefault(l, None)
        for l in ls:
            res[l] = self.mergen([s[l] for s in states if l in s], key, (l,))
        return res

    def run_block(self, f, k, st, ctx, cells, depth, stack, emit, builder):
        """interprets one block.  Returns {'succ': [(bb, state, conds, exit node)], 'ret': [term]}"""
        recs = f.blocks.get(k[0])
        out = {'succ': [], 'ret': []}
        if not recs:
            return out
        env = Env(self, f, st, ctx, cells)
        for i, rec in enumerate(recs):
            s = rec[2]
            kind = s[0]
            if kind == 'nop':
                continue
            if kind == 'assign':
                v = self.rvalue(env, s[2], rec, emit, s[1])
                self.write_place(env, s[1], v, rec, emit)
            elif kind == 'deinit':
                ty = self.place_type(env, s[1])
                sh = short(ty)
                if sh.startswith('[closure@'):
                    v = ('agg', 'closure:' + CLOSURE_RE.search(sh).group(1), None, ())
                else:
                    v = ('agg', sh, None, ())
                if not s[1].proj:
                    if env.is_cell(s[1].local):
                        env.s[s[1].local] = env.cellterm(s[1].local)
                        env.fresh.add(s[1].local)
                        t = env.cellterm(s[1].local)
                        self.celltypes = getattr(self, 'celltypes', {})
                        self.celltypes[t] = sh
                    else:
                        env.s[s[1].local] = v
                # nested deinit: leave
            elif kind == 'setdisc':
                ty = self.place_type(env, s[1])
                vs = self.variants(ty)
                name = vs[s[2]] if vs and s[2] < len(vs) else '#%d' % s[2]
                if not s[1].proj:
                    l = s[1].local
                    if env.is_cell(l):
                        base = env.cellterm(l)
                        fs = []
                        for (b0, n0), vv in list(self.cellfields.items()):
                            if b0 == base and n0.startswith(name + '.'):
                                fs.append((n0.rsplit('.', 1)[1], vv[-1]))
                        v = ('agg', short(ty), name, tuple(fs))
                        d = self.celldefs.setdefault(base, [])
                        if v not in d:
                            d.append(v)
                            self.dirty = True
                        emit('write', {'place': base, 'value': v, 'cell': True}, rec)
                    else:
                        cur = env.s.get(l)
                        if cur is None or cur[0] != 'agg':
                            cur = ('agg', short(ty), None, ())
                        env.s[l] = ('agg', short(ty), name, cur[3])
                else:
                    has_deref = any(p[0] == 'deref' for p in s[1].proj)
                    if not has_deref and not env.is_cell(s[1].local):
                        self.write_disc_nested(env, s[1], name, ty)
                    else:
                        t, _ = self.read_place_addr(env, s[1])
                        emit('write', {'place': t, 'value': ('agg', short(ty), name, ())}, rec)
            elif kind == 'goto':
                out['succ'].append((s[1], st, [], emit('end', None, rec)))
            elif kind == 'return':
                t = env.get(0)
                n = emit('ret', {'value': t}, rec)
                out['ret'].append(t)
                out.setdefault('retnode', []).append((n, t))
            elif kind == 'dead':
                emit('dead', {}, rec)
            elif kind == 'drop':
                emit('drop', {'place': self.read_place(env, s[1])[0], 'ty': self.place_type(env, s[1])}, rec)
                out['succ'].append((s[2], st, [], emit('end', None, rec)))
            elif kind == 'assert':
                c = self.operand(env, s[1], rec)
                cd = self.cond(c, s[2])
                if 'index out of bounds' in s[4]:
                    n = emit('end', None, rec)
                    out['succ'].append((s[3], st, [], n))
                else:
                    n = emit('end', None, rec)
                    out['succ'].append((s[3], st, [cd], n))
            elif kind == 'switch':
                self.do_switch(env, s, rec, st, out, emit)
            elif kind == 'call':
                self.do_call(env, s, rec, st, out, emit, depth, stack, builder, k, i)
            elif kind == 'opq':
                pass
        return out

    def write_disc_nested(self, env, pl, name, ty):
        cur = env.s.get(pl.local)
        tyn = env.f.types.get(pl.local, '')
        path = []
        dc = None
        for p in pl.proj:
            if p[0] == 'dc':
                dc = p[1]
            elif p[0] == 'field':
                path.append((dc + '.' + str(p[1])) if dc else self.P.field_name(tyn, p[1]))
                tyn = p[2]
                dc = None
            else:
                return
        t = cur
        for n in path:
            if t is None:
                return
            t = self.fld(t, n)
        fs = t[3] if t is not None and t[0] == 'agg' else ()
        env.s[pl.local] = self.set_agg(cur, path, ('agg', short(ty), name, fs))

    def place_type(self, env, pl):
        ty = env.f.types.get(pl.local, '')
        for p in pl.proj:
            if p[0] == 'deref':
                ty = deref_ty(ty)
            elif p[0] == 'field':
                ty = p[2]
            elif p[0] in ('index', 'cidx'):
                ty = self.elem_type(ty)
        return ty

    def do_switch(self, env, s, rec, st, out, emit):
        t = self.operand(env, s[1], rec)
        arms = s[2]
        ty = self.optype(env, s[1])
        if t[0] == 'const' and isinstance(t[1], (bool, int)):
            v = int(t[1])
            tgt = None
            for a, b in arms:
                if a == v or a is None:
                    tgt = b
                    break
            n = emit('end', None, rec)
            out['succ'].append((tgt, st, [], n))
            return
        n = emit('branch', {'term': t}, rec)
        if t[0] == 'disc':
            x, ety = t[1], t[2]
            vs = self.variants(ety)
            if short(ety) == 'Ordering':
                # discriminants -1, 0, 1
                arms = [(a if a is None else (a + 1 if a in (0, 1) else 0), b) for a, b in arms]
            poss = None
            if x[0] == 'phi':
                al = self.alternatives(x)
                if al and all(a[0] == 'agg' and a[2] is not None for a in al):
                    poss = {a[2] for a in al}
            listed = [a for a, _ in arms if a is not None]
            for a, b in arms:
                if a is not None:
                    name = vs[a] if vs and a < len(vs) else '#%d' % a
                    if poss is not None and name not in poss:
                        continue
                    st2 = self.refine(env, dict(st), x, name, rec, s)
                    out['succ'].append((b, st2, [(('is', x, name), True)], n))
                else:
                    if vs and len(vs) - len(listed) == 1:
                        name = [v for i, v in enumerate(vs) if i not in listed][0]
                        if poss is not None and name not in poss:
                            continue
                        st2 = self.refine(env, dict(st), x, name, rec, s)
                        out['succ'].append((b, st2, [(('is', x, name), True)], n))
                    elif vs and len(vs) == len(listed):
                        continue
                    else:
                        cs = [(('is', x, vs[i] if vs and i < len(vs) else '#%d' % i), False) for i in listed]
                        out['succ'].append((b, dict(st), cs, n))
            return
        if ty == 'bool' or (len(arms) == 2 and arms[0][0] == 0 and ty in ('bool', '')):
            for a, b in arms:
                val = False if a == 0 else True
                st2 = dict(st)
                cd = self.cond(t, val)
                out['succ'].append((b, st2, [cd], n))
            return
        for a, b in arms:
            if a is not None:
                out['succ'].append((b, dict(st), [(self.binop('Eq', t, ('const', a)), True)], n))
            else:
                out['succ'].append((b, dict(st), [(self.binop('Eq', t, ('const', x)), False) for x, _ in arms if x is not None], n))

    def refine(self, env, st, x, name, rec, s):
        """on the edge where x is known to be variant `name`, narrow locals that hold x exactly (non-memory terms)"""
        if x[0] == 'phi':
            al = self.phis.get(x, [])
            keep = [a for a in al if not (a[0] == 'agg' and a[2] is not None and a[2] != name)]
            if len(keep) < len(al) and keep:
                if len(keep) == 1:
                    r = keep[0]
                else:
                    r = self.phi_add(('ref', x, name), *keep)
                for l, t in st.items():
                    if t == x:
                        st[l] = r
        return st

    # ------------------------------------------------------------------ calls
    def do_call(self, env, s, rec, st, out, emit, depth, stack, builder, k, i):
        f = env.f
        ctext = s[2]
        args = tuple(self.operand(env, a, rec) for a in s[3])
        atys = [self.optype(env, a) for a in s[3]]
        site = self.intern(('site', env.ctx, k[0], k[1] if builder is None or True else None))
        site0 = self.intern(('site0', env.ctx, k[0]))
        if ctext.startswith('move _') or ctext.startswith('copy _') or re.match(r'^_\d+$', ctext):
            m = re.search(r'_(\d+)', ctext)
            ft = env.get(int(m.group(1)))
            plan = self.plan_fnvalue(ft, args, site0)
            c = None
            ckey = '<fnptr>'
        else:
            c = parse_callee(ctext)
            ckey = c.key
            plan = self.plan(env, c, args, atys, site0, depth, stack, rec)
        d = {'key': ckey, 'callee': c, 'args': args, 'tys': atys, 'trait': c.trait if c else None, 'method': c.method if c else None}
        if plan.get('inlined') is not None:
            d['inl'] = True
        ends = emit_plan(self, env, plan, d, rec, emit, depth, stack, builder, site0)
        if s[4] is None:
            return
        for (conds, term, node) in ends:
            st2 = dict(st)
            env2 = Env(self, f, st2, env.ctx, env.cells)
            if s[1].proj and builder is not None:
                n2 = builder.chain(node, lambda em: self.write_place(env2, s[1], term, rec, em), f, env.ctx)
                out['succ'].append((s[4], st2, conds, n2))
            else:
                if builder is not None:
                    n2 = builder.chain(node, lambda em: self.write_place(env2, s[1], term, rec, em), f, env.ctx)
                else:
                    self.write_place(env2, s[1], term, rec, emit)
                    n2 = node
                out['succ'].append((s[4], st2, conds, n2))

    def closure_func(self, t):
        """term -> (Func, kind) for closure / fn item values"""
        t = self.obj(t)
        if t[0] == 'phi':
            al = self.alternatives(t)
            if len(al) == 1:
                t = al[0]
        if t[0] == 'loc' and getattr(self, 'celltypes', {}).get(t, '').startswith('[closure@'):
            m = CLOSURE_RE.search(self.celltypes[t])
            g = self.P.closures.get(m.group(1))
            if g is not None:
                return g, 'closure', t
        if t[0] == 'agg' and t[1].startswith('closure:'):
            g = self.P.closures.get(t[1][8:])
            if g is not None:
                return g, 'closure', t
        if t[0] == 'fnitem':
            g = self.P.resolve(parse_callee(t[1]))
            if g is not None:
                return g, 'fn', t
        return None

    def closure_args(self, cf, params):
        g, kind, t = cf
        g.parse()
        if kind == 'closure':
            n = len(g.args) - 1
            ps = list(params)[:n]
            while len(ps) < n:
                ps.append(('clarg', self.intern(('clarg', g.key)), len(ps)))
            return (t,) + tuple(ps)
        return tuple(params)

    def plan_fnvalue(self, ft, args, site):
        cf = self.closure_func(ft)
        if cf is not None:
            a = list(args)
            return {'alts': [([], [(cf[0], self.closure_args(cf, a), '1')], lambda r: r[-1])]}
        return {'alts': [([], [], lambda r: ('call', '<fnptr>', args, site))]}

    def plan(self, env, c, args, atys, site, depth, stack, rec):
        m = c.method
        key = c.key
        sh = short(c.selfty) if c.selfty else ''
        trait = c.trait

        def val(t, event=True):
            return {'alts': [([], [], lambda r, t=t: t)], 'event': event}

        # calling closures / function values
        if trait in ('Fn', 'FnMut', 'FnOnce') and m in ('call', 'call_mut', 'call_once'):
            cf = self.closure_func(args[0])
            params = []
            if len(args) > 1:
                a = args[1]
                if a[0] == 'agg':
                    params = [x for _, x in a[3]]
                elif a == UNIT:
                    params = []
                else:
                    params = [self.fld(a, str(i)) for i in range(6)]
            if cf is not None and cf[0].key not in stack and depth < self.max_depth + 3:
                return {'alts': [([], [(cf[0], self.closure_args(cf, params), '1')], lambda r: r[-1])], 'event': True}
            return val(('call', 'callfn', (args[0],) + tuple(params), site))

        # workspace callee
        g = self.P.resolve(c)
        if g is not None:
            if trait in ('Index', 'IndexMut') and m in ('index', 'index_mut') and not (self.inline_pred and self.inline_pred(g)):
                return {'alts': [([], [], lambda r: self.index(args[0], args[1]))], 'index': (args[0], args[1], m == 'index_mut')}
            if g.key.startswith('report::benchmark::report_time') or g.key.startswith('report::benchmark::silent_report_time') or g.key.startswith('report::benchmark::get_time'):
                for a in args:
                    cf = self.closure_func(a)
                    if cf is not None:
                        def rr(r, nm=g.key):
                            return r[-1] if 'silent_report' not in nm and 'get_time' not in nm else tup(r[-1], ('opq', -1))
                        return {'alts': [([], [(cf[0], self.closure_args(cf, []), '1')], rr)], 'event': True}
            if self.should_inline(g, depth, stack):
                g.parse()
                ps = list(args)
                return {'alts': [([], [(g, tuple(ps), '1')], lambda r: r[-1])], 'event': True, 'inlined': g}
        # opaque or external
        mod = self.model(env, c, args, atys, site, rec)
        if mod is not None:
            return mod
        # closures handed to an unmodelled function: may run any number of times
        steps = []
        if g is None or not g.key.startswith('report::'):
            for a in args:
                cf = self.closure_func(a)
                if cf is not None and cf[0].key not in stack and depth < self.max_depth + 3:
                    cont = args[0] if args else ('const', 'none')
                    steps.append((cf[0], self.closure_args(cf, [self.elem(cont, site)] if trait in ('Iterator', 'ParallelIterator') or self.is_iter(self.obj(cont)) else []), '*'))
        impure = any(t.startswith('&mut') or '&mut' in t[:12] for t in atys) or not args or m in ('new', 'with_capacity', 'default', 'from_elem', 'collect', 'clone', 'to_vec', 'sum', 'load')
        t = self.cap(('call', key, args, site if impure else None))
        return {'alts': [([], steps, lambda r: t)], 'event': True}

    def index(self, base, i):
        i2 = self.obj(i)
        if i2[0] == 'agg' and i2[1] in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'):
            if i2[1] == 'RangeFull':
                return base
            return self.cap(('slice', base, i2))
        if i2[0] == 'const' and i2[1] == 'RangeFull':
            return base
        return self.cap(('idx', base, i))

    def model(self, env, c, args, atys, site, rec):
        m = c.method
        trait = c.trait
        sh = short(c.selfty) if c.selfty else ''
        path = c.path or ''

        def val(t, event=True, **kw):
            d = {'alts': [([], [], lambda r, t=t: t)], 'event': event}
            d.update(kw)
            return d

        def cl(t, params, mode='1'):
            cf = self.closure_func(t)
            if cf is None:
                return None
            return (cf[0], self.closure_args(cf, params), mode)

        ext = not self.P.resolve(c)
        if not ext:
            return None
        a0 = args[0] if args else None
        if trait in ('Index', 'IndexMut') and m in ('index', 'index_mut'):
            return {'alts': [([], [], lambda r: self.index(args[0], args[1]))], 'index': (args[0], args[1], m == 'index_mut')}
        if m in ('get_unchecked', 'get_unchecked_mut') and len(args) == 2:
            return {'alts': [([], [], lambda r: self.index(args[0], args[1]))], 'index': (args[0], args[1], m.endswith('mut')), 'unchecked': True, 'event': True}
        if m in ('assume_init', 'unwrap_unchecked'):
            return val(self.fld(a0, 'Some.0') if m == 'unwrap_unchecked' else a0)
        if trait in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow', 'BorrowMut') and m in TRANSPARENT:
            return val(a0, event=False)
        if sh in ('Option', 'Result'):
            r = self.model_option(sh, m, args, site, cl, val)
            if r is not None:
                return r
        if trait == 'Try' and m == 'branch':
            al = self.obj(a0)
            good = 'Ok' if sh == 'Result' else 'Some'
            bad = 'Err' if sh == 'Result' else 'None'
            cont = lambda r: ('agg', 'ControlFlow', 'Continue', (('0', self.fld(a0, good + '.0')),))
            brk = lambda r: ('agg', 'ControlFlow', 'Break', (('0', ('residual', a0)),))
            if a0[0] == 'agg' and a0[2] == good:
                return {'alts': [([], [], cont)], 'event': False}
            if a0[0] == 'agg' and a0[2] == bad:
                return {'alts': [([], [], brk)], 'event': False}
            return {'alts': [([(('is', a0, good), True)], [], cont), ([(('is', a0, bad), True)], [], brk)], 'event': False}
        if trait == 'FromResidual' and m == 'from_residual':
            x = a0[1] if a0[0] == 'residual' else a0
            if sh == 'Option':
                return val(NONE, event=False)
            return val(('agg', 'Result', 'Err', (('0', self.fld(x, 'Err.0') if x[0] != 'agg' else self.fld(x, 'Err.0')),)), event=True)
        if trait in ('PartialEq',) and m in ('eq', 'ne') and len(args) == 2:
            t = self.eqterm(args[0], args[1])
            return val(self.unop('Not', t) if m == 'ne' else t, event=False)
        if trait in ('PartialOrd',) and m in ('lt', 'le', 'gt', 'ge'):
            return val(self.binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m], args[0], args[1]), event=False)
        if trait in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and m in ('add', 'sub', 'mul', 'div', 'rem') and len(args) == 2:
            op = m.capitalize()
            return {'alts': [([], [], lambda r: self.binop(op, args[0], args[1]))], 'arith': (op, args[0], args[1], strip_refs(atys[0])), 'event': False}
        if trait in ('AddAssign', 'SubAssign', 'MulAssign', 'DivAssign') and len(args) == 2:
            op = m.replace('_assign', '').capitalize()
            t = self.binop(op, args[0], args[1])
            return {'alts': [([], [], lambda r: UNIT)], 'writes': [(args[0], t)], 'arith': (op, args[0], args[1], strip_refs(atys[0])), 'event': False}
        if path in ('std::cmp::min', 'std::cmp::max', 'core::cmp::min', 'core::cmp::max') or (trait == 'Ord' and m in ('min', 'max') and len(args) == 2):
            return val(self.binop(m, args[0], args[1]), event=False)
        if m in ('saturating_sub', 'wrapping_sub', 'wrapping_add', 'saturating_add', 'checked_add', 'checked_sub', 'abs_diff', 'saturating_mul', 'wrapping_mul', 'pow', 'count_ones', 'trailing_zeros') and len(args) >= 1 and sh in SCALARS:
            return val(('call', m, args, None), event=True)
        if path in ('std::mem::swap', 'core::mem::swap'):
            return {'alts': [([], [], lambda r: UNIT)], 'writes': [(args[0], args[1]), (args[1], args[0])], 'event': True}
        if path in ('std::mem::replace', 'core::mem::replace'):
            old = ('call', 'mem.old', (args[0],), site)
            return {'alts': [([], [], lambda r: old)], 'writes': [(args[0], args[1])], 'event': True}
        if path in ('std::mem::take', 'core::mem::take'):
            old = ('call', 'mem.old', (args[0],), site)
            return {'alts': [([], [], lambda r: old)], 'writes': [(args[0], ('call', 'default', (), None))], 'event': True}
        if path.endswith('panicking::panic') or path.endswith('panic_fmt') or path.endswith('assert_failed') or path.endswith('begin_panic') or path.endswith('unreachable_display'):
            return {'alts': [([], [], lambda r: BOT)], 'panic': True, 'event': False}
        if path.startswith('core::fmt') or path.startswith('std::fmt') or sh in ('ArgumentV1', 'Argument', 'Arguments', 'UnsafeArg'):
            return val(('opq', -2), event=False)
        if m == 'len' and len(args) == 1:
            return val(('len', a0))
        if m == 'is_empty' and len(args) == 1 and sh in ('Vec', '[]', 'str', 'String'):
            return val(self.binop('Eq', ('len', a0), ('const', 0)), event=False)
        if sh in SCALARS and trait in ('From', 'Into') or (trait == 'Into' and strip_refs(atys[0]) in SCALARS if atys else False):
            return val(a0, event=False)
        # iterators
        if trait == 'IntoIterator' and c.selfty and not c.selfty.lstrip().startswith('&') and self.P.method(short(c.selfty), 'next', None, 'Iterator'):
            return val(a0, event=False)
        if trait in ('IntoIterator', 'IntoParallelIterator', 'IntoParallelRefIterator', 'IntoParallelRefMutIterator') or (m in ('iter', 'iter_mut', 'par_iter', 'par_iter_mut', 'into_iter', 'drain', 'par_chunks', 'chunks', 'chunks_mut', 'windows', 'array_windows', 'values', 'keys') and sh in ('[]', 'Vec', 'HashMap', 'BTreeMap', 'HashSet', 'VecDeque', 'BinaryHeap', 'LinkedList', 'Box')):
            x = self.obj(a0)
            if self.is_iter(x):
                return val(a0, event=(m == 'drain'))
            if x[0] == 'agg' and x[1] in ('Range', 'RangeInclusive', 'RangeFrom'):
                return val(('iter', x), event=False)
            if m in ('chunks', 'par_chunks', 'windows', 'array_windows', 'chunks_mut'):
                return val(('iter', ('call', m, args, None)), event=True)
            if m == 'drain':
                return val(('iter', ('call', 'drain', args[:1], None)) if False else ('iter', a0), event=True)
            return val(('iter', x if x[0] in ('call', 'phi') and self.is_iter(x) else a0), event=(m == 'drain'))
        if trait in ('Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'DoubleEndedIterator', 'ExactSizeIterator') or sh == 'Peekable':
            r = self.model_iter(c, m, args, atys, site, cl, val)
            if r is not None:
                return r
        if m in ('then', 'then_some') and sh == 'bool':
            if m == 'then_some':
                return {'alts': [([self.cond(a0, True)], [], lambda r: some(args[1])), ([self.cond(a0, False)], [], lambda r: NONE)], 'event': False}
            x = cl(args[1], [])
            if x:
                return {'alts': [([self.cond(a0, True)], [x], lambda r: some(r[-1])), ([self.cond(a0, False)], [], lambda r: NONE)], 'event': False}
        # run-exactly-once combinators
        if (path in ('rayon::join', 'rayon::scope', 'rayon_core::join', 'rayon_core::scope', 'rayon::in_place_scope', 'std::thread::spawn') or (sh in ('ScopedKey', 'LocalKey') and m in ('set', 'with'))
                or (sh in ('Scope', 'ThreadPool') and m in ('spawn', 'install', 'scope')) or m in ('spawn', 'spawn_fifo', 'spawn_blocking')):
            steps = []
            for a in args:
                params = []
                if sh == 'ScopedKey' and m == 'with':
                    params = [('call', 'ScopedKey.get', (args[0],), None)]
                x = cl(a, params)
                if x:
                    steps.append(x)
            if steps:
                if path.endswith('join'):
                    return {'alts': [([], steps, lambda r: tup(*r))], 'event': True, 'pre': True}
                return {'alts': [([], steps, lambda r: r[-1])], 'event': True, 'pre': True}
        if m == 'clone' and trait == 'Clone':
            ty = strip_refs(atys[0])
            if ty in SCALARS or short(ty) in ('Range', 'RangeInclusive') or self.is_iter(self.obj(a0)):
                return val(a0, event=False)
        if m in ('split_at_mut', 'split_at') and len(args) == 2:
            r0 = ('agg', 'Range', None, (('start', ('const', 0)), ('end', args[1])))
            r1 = ('agg', 'RangeFrom', None, (('start', args[1]),))
            return val(tup(('slice', a0, r0), ('slice', a0, r1)), event=True)
        if m in TRANSPARENT and len(args) == 1 and trait is None:
            return val(a0, event=(m in ('lock', 'read', 'borrow_mut')))
        if m in ('lock', 'read', 'write') and sh in ('Mutex', 'RwLock'):
            return val(ok(a0), event=True)
        return None

    def eqterm(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'agg' and x[1] == 'Option':
                if x[2] == 'None':
                    if y[0] == 'agg' and y[2]:
                        return ('const', y[2] == 'None')
                    return ('is', y, 'None')
        return self.binop('Eq', a, b)

    def model_option(self, sh, m, args, site, cl, val):
        good = 'Some' if sh == 'Option' else 'Ok'
        bad = 'None' if sh == 'Option' else 'Err'
        a0 = args[0] if args else None
        if a0 is None:
            return None
        v = lambda: self.fld(a0, good + '.0')
        wrap = some if sh == 'Option' else ok
        badv = NONE if sh == 'Option' else ('agg', 'Result', 'Err', (('0', self.fld(a0, 'Err.0')),))
        known = a0[2] if a0[0] == 'agg' and a0[1] in ('Option', 'Result') else None
        isg = [(('is', a0, good), True)]
        isb = [(('is', a0, bad), True)]

        def br(g, b, **kw):
            alts = []
            if known != bad:
                alts.append((isg if known is None else [],) + g)
            if known != good:
                alts.append((isb if known is None else [],) + b)
            d = {'alts': alts, 'event': False}
            d.update(kw)
            return d
        if m in ('unwrap', 'expect'):
            if known == bad:
                return {'alts': [([], [], lambda r: BOT)], 'panic': True, 'event': False}
            return {'alts': [([], [], lambda r: v())], 'event': True}
        if m in ('is_some', 'is_ok'):
            return val(('const', known == good) if known else ('is', a0, good), event=False)
        if m in ('is_none', 'is_err'):
            return val(('const', known != good) if known else self.unop('Not', ('is', a0, good)), event=False)
        if m in ('as_ref', 'as_mut', 'copied', 'cloned', 'as_deref', 'as_deref_mut', 'iter'):
            return val(a0, event=False)
        if m == 'take':
            old = ('call', 'mem.old', (a0,), site)
            return {'alts': [([], [], lambda r: old)], 'writes': [(a0, NONE)], 'event': True}
        if m in ('replace', 'insert'):
            old = ('call', 'mem.old', (a0,), site)
            return {'alts': [([], [], lambda r: old)], 'writes': [(a0, some(args[1]))], 'event': True}
        if m == 'unwrap_or':
            return br(([], lambda r: v()), ([], lambda r: args[1]))
        if m == 'unwrap_or_default':
            return br(([], lambda r: v()), ([], lambda r: ('call', 'default', (), None)))
        if m == 'ok':
            return br(([], lambda r: some(v())), ([], lambda r: NONE), event=True)
        if m == 'err':
            return br(([], lambda r: NONE), ([], lambda r: some(self.fld(a0, 'Err.0'))), event=True)
        if m == 'ok_or':
            return br(([], lambda r: ok(v())), ([], lambda r: err(args[1])))
        if m == 'or' and sh == 'Option':
            return br(([], lambda r: some(v())), ([], lambda r: args[1]))
        if m == 'and':
            return br(([], lambda r: args[1]), ([], lambda r: badv))
        if m == 'zip' and sh == 'Option':
            return {'alts': [(isg + [(('is', args[1], 'Some'), True)], [], lambda r: some(tup(v(), self.fld(args[1], 'Some.0')))),
                             ([(('is', a0, 'None'), True)], [], lambda r: NONE), ([(('is', args[1], 'None'), True)], [], lambda r: NONE)], 'event': False}
        if m == 'map':
            x = cl(args[1], [v()])
            if x:
                return br(([x], lambda r: wrap(r[-1])), ([], lambda r: badv))
            fn = args[1]
            return br(([], lambda r: wrap(('call', 'callfn', (fn, v()), site))), ([], lambda r: badv))
        if m == 'map_err':
            x = cl(args[1], [self.fld(a0, 'Err.0')])
            return br(([], lambda r: ok(v())), ([x] if x else [], lambda r: err(r[-1] if r else ('call', 'callfn', (args[1],), site))))
        if m == 'and_then':
            x = cl(args[1], [v()])
            if x:
                return br(([x], lambda r: r[-1]), ([], lambda r: badv))
        if m in ('map_or', 'map_or_else'):
            x = cl(args[2], [v()])
            if x:
                if m == 'map_or':
                    return br(([x], lambda r: r[-1]), ([], lambda r: args[1]))
                y = cl(args[1], [self.fld(a0, 'Err.0')] if sh == 'Result' else [])
                if y:
                    return br(([x], lambda r: r[-1]), ([y], lambda r: r[-1]))
        if m in ('unwrap_or_else', 'or_else', 'ok_or_else', 'get_or_insert_with'):
            y = cl(args[1], [self.fld(a0, 'Err.0')] if sh == 'Result' else [])
            if y:
                if m == 'unwrap_or_else':
                    return br(([], lambda r: v()), ([y], lambda r: r[-1]))
                if m == 'or_else':
                    return br(([], lambda r: wrap(v())), ([y], lambda r: r[-1]))
                if m == 'ok_or_else':
                    return br(([], lambda r: ok(v())), ([y], lambda r: err(r[-1])))
        if m == 'filter':
            x = cl(args[1], [v()])
            if x:
                return {'alts': [(isg, [x], lambda r: some(v())), (isg, [x], lambda r: NONE), (isb, [], lambda r: NONE)], 'event': False}
        return None

    def model_iter(self, c, m, args, atys, site, cl, val):
        a0 = args[0]
        o = self.obj(a0)
        if m in ('next', 'next_back', 'peek', 'next_if', 'nth'):
            if self.is_iter(o) or o[0] in ('call', 'phi', 'fld', 'arg', 'loc', 'elem', 'clarg', 'opq'):
                t = ('call', m, (o if self.is_iter(o) else a0,), site)
                return val(t, event=True)
            return None
        if m in PARTIAL:
            self.partial.add(self.obj(self.asiter(a0)))
            self.partial.add(a0)
        if m in ITER_PASS:
            if self.is_iter(o):
                return val(a0, event=False)
            return val(('iter', a0), event=False)
        if m == 'enumerate':
            return val(('enum', self.asiter(a0)), event=False)
        if m == 'zip' or m == 'zip_eq':
            b = args[1]
            return val(('zip', self.asiter(a0), self.asiter(b)), event=False)
        if m == 'chain':
            return val(('chain', self.asiter(a0), self.asiter(args[1])), event=False)
        e = lambda: self.elem(self.asiter(a0), site)
        if m == 'map':
            x = cl(args[1], [e()], '*')
            if x:
                return {'alts': [([], [x], lambda r: ('mapit', self.asiter(a0), r[-1]))], 'event': False, 'lazy': True}
            fn = args[1]
            if fn[0] == 'fnitem':
                return val(('mapit', self.asiter(a0), ('call', parse_callee(fn[1]).key, (e(),), None)), event=False)
            return val(('mapit', self.asiter(a0), ('call', 'callfn', (fn, e()), site)), event=False)
        if m in ('filter', 'inspect', 'take_while', 'skip_while'):
            x = cl(args[1], [e()], '*')
            if x:
                return {'alts': [([], [x], lambda r: self.asiter(a0))], 'event': False, 'lazy': True}
            return val(a0, event=False)
        if m in ('filter_map',):
            x = cl(args[1], [e()], '*')
            if x:
                return {'alts': [([], [x], lambda r: ('mapit', self.asiter(a0), self.fld(r[-1], 'Some.0')))], 'event': False, 'lazy': True}
        if m in ('flat_map',):
            x = cl(args[1], [e()], '*')
            if x:
                return {'alts': [([], [x], lambda r: ('mapit', self.asiter(a0), self.elem(self.asiter(r[-1]), site)))], 'event': False, 'lazy': True}
        if m in ('flatten',):
            return val(('mapit', self.asiter(a0), self.elem(self.asiter(e()), site)), event=False)
        if m in ('for_each', 'all', 'any', 'position', 'find', 'max_by_key', 'min_by_key', 'partition', 'try_for_each', 'for_each_with'):
            xs = [cl(a, [e()], '*') for a in args[1:]]
            xs = [x for x in xs if x]
            t = ('call', 'iter.' + m, (self.asiter(a0),), site)
            return {'alts': [([], xs, lambda r: t)], 'event': True}
        if m in ('fold',):
            acc = self.phi_add(('fold', site), args[1])
            x = cl(args[2], [acc, e()], '*')
            if x:
                def fin(r):
                    self.phi_add(('fold', site), r[-1])
                    return acc
                return {'alts': [([], [x], fin)], 'event': True}
        if m in ('collect', 'sum', 'count', 'max', 'min', 'last', 'unzip', 'product', 'collect_into_vec'):
            return val(('call', m, (self.asiter(a0),) + args[1:], site), event=True)
        return None

    def asiter(self, t):
        o = self.obj(t)
        if self.is_iter(o):
            return o
        return ('iter', t)

    # ------------------------------------------------------------------ graph construction
    def run(self, f, args=None, rounds=6):
        """analyses entry f and returns its event graph"""
        f.parse()
        if args is None:
            args = tuple(('arg', i + 1) for i in range(len(f.args)))
        for _ in range(rounds):
            self.dirty = False
            self.memo = {}
            self.analyze(f, args, 0, 0, (f.key,))
            if not self.dirty:
                break
        return Builder(self).build(f, args)


def _noemit(kind, d, rec):
    return None


def emit_plan(A, env, plan, d, rec, emit, depth, stack, builder, site):
    """returns [(conds, term, node)]"""
    ends = []
    if builder is None:
        for i, (conds, steps, fin) in enumerate(plan['alts']):
            outs = [([],)]
            rets = [[]]
            dead = False
            for j, (g, args, mode) in enumerate(steps):
                sub = A.intern(('ctx', env.ctx, site, i, j, g.key))
                fx = A.analyze(g, args, sub, depth + 1, stack + (g.key,))
                vals = list(fx.rets.values())
                if not vals:
                    if mode == '1':
                        dead = True
                        break
                    vals = [BOT]
                if mode == '1' and j == len(steps) - 1:
                    rets = [r + [v] for r in rets for v in vals]
                else:
                    v = vals[0]
                    for w in vals[1:]:
                        v = A.merge(v, w, ('mr', sub), ())
                    rets = [r + [v] for r in rets]
            if dead:
                continue
            for r in rets:
                ends.append((list(conds), fin(r), None))
        if plan.get('panic'):
            return []
        for (p, v) in plan.get('writes', ()):
            if p[0] == 'loc':
                l = A.celldefs.setdefault(p, [])
                if v not in l and v != p:
                    l.append(v)
                    A.dirty = True
        return ends
    # ---- graph mode
    cur = None
    if plan.get('event', False) or plan.get('pre'):
        cur = emit('call', d, rec)
    if 'index' in plan:
        b, ix, mu = plan['index']
        cur = emit('index', {'base': b, 'index': ix, 'mut': mu, 'unchecked': plan.get('unchecked', False)}, rec)
    if 'arith' in plan:
        op, a, b, ty = plan['arith']
        cur = emit('arith', {'op': op, 'a': a, 'b': b, 'ty': ty, 'result': A.binop(op, a, b)}, rec)
    for (p, v) in plan.get('writes', ()):
        cur = emit('write', {'place': p, 'value': v, 'via': d['key']}, rec)
    if plan.get('panic'):
        emit('panic', d, rec)
        return []
    start = emit('end', None, rec)
    for i, (conds, steps, fin) in enumerate(plan['alts']):
        if len(plan['alts']) > 1:
            head = builder.node('alt', {}, env.f, rec[1], env.ctx)
            builder.edge(start, head, conds)
            conds = []
        else:
            head = start
        rets = [([], head)]
        dead = False
        for j, (g, args, mode) in enumerate(steps):
            sub = A.intern(('ctx', env.ctx, site, i, j, g.key))
            fx = A.analyze(g, args, sub, depth + 1, stack + (g.key,))
            if mode == '1':
                entry, exits = builder.inst(g, args, sub, depth + 1, stack + (g.key,), d if j == 0 else None)
                for r, h in rets[:1]:
                    builder.edge(h, entry, [])
                base = rets[0][0]
                if not exits:
                    dead = True
                    break
                if j == len(steps) - 1:
                    rets = [(base + [t], n) for t, n in exits]
                else:
                    v = exits[0][0]
                    jn = builder.node('join', {}, env.f, rec[1], env.ctx)
                    for t, n in exits:
                        v = A.merge(v, t, ('mr', sub), ())
                        builder.edge(n, jn, [])
                    for t, n in exits:
                        builder.assign(n, jn, v, t)
                    rets = [(base + [v], jn)]
            else:
                # zero or more times
                loop = builder.node('loop', {'of': g.key, 'args': args, 'method': (d or {}).get('method')}, env.f, rec[1], env.ctx)
                done = builder.node('join', {}, env.f, rec[1], env.ctx)
                entry, exits = builder.inst(g, args, sub, depth + 1, stack + (g.key,), None)
                builder.edge(rets[0][1], loop, [])
                builder.edge(loop, entry, [(('more', sub), True)])
                builder.edge(loop, done, [(('more', sub), False)])
                vals = []
                for t, n in exits:
                    builder.edge(n, loop, [])
                    vals.append(t)
                v = vals[0] if vals else BOT
                for w in vals[1:]:
                    v = A.merge(v, w, ('mr', sub), ())
                rets = [(rets[0][0] + [v], done)]
        if dead:
            continue
        for r, n in rets:
            ends.append((list(conds), fin(r), n))
    return ends


def deref_ty(t):
    t = t.strip()
    if t.startswith('&'):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t[t.find(' ') + 1:]
        if t.startswith('mut '):
            t = t[4:]
        return t
    if t.startswith('*const '):
        return t[7:]
    if t.startswith('*mut '):
        return t[5:]
    if t.startswith('std::boxed::Box<'):
        return mir.split_top(t[16:-1])[0]
    return t


WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128, 'bool': 1, 'char': 32}


def narrowing(a, b):
    return a in WIDTH and b in WIDTH and (WIDTH[b] < WIDTH[a] or (a[0] != b[0] and WIDTH[b] <= WIDTH[a] and a != 'bool'))


class Env:
    __slots__ = ('A', 'f', 's', 'ctx', 'cells', 'fresh')

    def __init__(self, A, f, s, ctx, cells):
        self.A = A
        self.f = f
        self.s = s
        self.ctx = ctx
        self.cells = cells
        self.fresh = set()

    def get(self, l):
        t = self.s.get(l)
        if t is None:
            ty = self.f.types.get(l, '')
            m = CLOSURE_RE.match(ty)
            if m:
                return ('agg', 'closure:' + m.group(1), None, ())
            if l in self.cells:
                return self.cellterm(l)
            if ty == '()':
                return UNIT
            if short(ty) in ('RangeFull',):
                return ('agg', 'RangeFull', None, ())
            return ('undef', self.ctx, l) if not ty[:1].isalpha() or True else BOT
        return t

    def is_cell(self, l):
        n = self.cells.get(l)
        if n is None:
            return False
        t = self.s.get(l)
        return t is None or t == self.cellterm(l) or l in self.fresh

    def cellterm(self, l):
        return ('loc', self.ctx, l)


class Builder:
    def __init__(self, A):
        self.A = A
        self.nodes = []
        self.assigns = {}

    def assign(self, a, b, target, term):
        """records which value a merged (phi) term takes on the edge a->b"""
        if target == term:
            return
        if target[0] == 'phi':
            self.assigns.setdefault((a.id, b.id), {})[target] = term
        elif target[0] == 'agg' and term[0] == 'agg' and len(target[3]) == len(term[3]):
            for (k, x), (_, y) in zip(target[3], term[3]):
                self.assign(a, b, x, y)

    def node(self, kind, d, fn, span, ctx):
        n = Node(len(self.nodes), kind, d, fn, span, ctx)
        self.nodes.append(n)
        if len(self.nodes) > self.A.max_nodes:
            raise MemoryError('event graph too large')
        return n

    def edge(self, a, b, conds):
        a.succ.append((b, tuple(conds)))

    def chain(self, node, fn, f, ctx):
        cur = [node]

        def em(kind, d, rec):
            if kind == 'end':
                return cur[0]
            n = self.node(kind, d, f, rec[1] if rec else '', ctx)
            self.edge(cur[0], n, [])
            cur[0] = n
            return n
        fn(em)
        return cur[0]

    def inst(self, f, args, ctx, depth, stack, d):
        """instantiates f; returns (entry node, [(ret term, node)])"""
        A = self.A
        fx = A.analyze(f, args, ctx, depth, stack)
        live = A.liveness(f)
        cells = A.cells(f)
        start, nkeys = fx.keys
        bnodes = {}
        entry = self.node('enter', {'fn': f.key, 'args': args}, f, '', ctx)
        exits = {}
        todo = [start]

        def bn(k):
            n = bnodes.get(k)
            if n is None:
                n = bnodes[k] = self.node('block', {'bb': k[0]}, f, '', ctx)
                todo.append(k)
            return n
        n0 = bnodes[start] = self.node('block', {'bb': 0}, f, '', ctx)
        self.edge(entry, n0, [])
        while todo:
            k = todo.pop()
            cur = [bnodes[k]]
            st = dict(fx.states.get(k, {}))

            def em(kind, dd, rec):
                if kind == 'end':
                    return cur[0]
                n = self.node(kind, dd, f, rec[1] if rec else '', ctx)
                self.edge(cur[0], n, [])
                cur[0] = n
                return n
            outs = A.run_block(f, k, st, ctx, cells, depth, stack, em, self)
            for (b, s2, conds, frm) in outs['succ']:
                sk = A.bkey(f, b, s2, live, nkeys)
                if sk not in fx.states:
                    lv = live.get(b, ())
                    fx.states[sk] = {l: t for l, t in s2.items() if l in lv or l in cells}
                tgt = bn(sk)
                self.edge(frm, tgt, conds)
                for l, t in fx.states[sk].items():
                    u = s2.get(l)
                    if u is not None and u != t:
                        self.assign(frm, tgt, t, u)
            for n, t in outs.get('retnode', []):
                tg = A.tag(t)
                if tg in exits:
                    exits[tg][1].append((n, t))
                else:
                    exits[tg] = [fx.rets.get(tg, t), [(n, t)]]
        res = []
        for tg, (t, ns) in exits.items():
            j = self.node('exit', {'fn': f.key, 'value': t}, f, '', ctx)
            for n, u in ns:
                self.edge(n, j, [])
                self.assign(n, j, t, u)
            res.append((t, j))
        return entry, res

    def build(self, f, args):
        root, exits = self.inst(f, args, 0, 0, (f.key,), None)
        g = Graph(self.A, self.nodes, root, [n for _, n in exits], f)
        g.assigns = self.assigns
        return g


class Graph:
    def __init__(self, A, nodes, root, exits, f):
        self.A = A
        self.nodes = nodes
        self.root = root
        self.exits = exits
        self.f = f
        self._pred = None
        # reachable part only
        seen = set()
        st = [root]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for m, _ in n.succ:
                st.append(m)
        self.reach = seen

    def events(self, *kinds):
        return [n for n in self.nodes if n.id in self.reach and n.kind in kinds]

    def calls(self, pred):
        return [n for n in self.events('call') if pred(n)]

    def reachable(self, starts, avoid=None, edge_ok=None):
        """nodes reachable from the given nodes (exclusive of avoid nodes)"""
        seen = set()
        st = list(starts)
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for m, c in n.succ:
                if avoid is not None and avoid(m):
                    continue
                if edge_ok is not None and not edge_ok(n, m, c):
                    continue
                st.append(m)
        return seen

    def path(self, start, goal, avoid=None, edge_ok=None):
        """a path (list of nodes) start ->* goal avoiding nodes; None if there is none"""
        prev = {start.id: None}
        q = [start]
        i = 0
        while i < len(q):
            n = q[i]
            i += 1
            for m, c in n.succ:
                if m.id in prev:
                    continue
                if avoid is not None and avoid(m):
                    continue
                if edge_ok is not None and not edge_ok(n, m, c):
                    continue
                prev[m.id] = n
                if goal(m):
                    p = [m]
                    while p[-1] is not None and prev[p[-1].id] is not None:
                        p.append(prev[p[-1].id])
                    return p[::-1]
                q.append(m)
        return None

    def cases(self, t, depth=6):
        """[(value, [edge, ..])]: the non-phi values a term takes, each with the edges (outermost first) on which it is chosen"""
        if t[0] != 'phi':
            if t[0] == 'agg' and t[3] and depth > 0 and any(x[0] == 'phi' for _, x in t[3]):
                # one merged component: split on it
                for i, (k, x) in enumerate(t[3]):
                    if x[0] == 'phi':
                        res = []
                        for v, es in self.cases(x, depth - 1):
                            if v[0] == 'phi':
                                return [(t, [])]
                            nt = ('agg', t[1], t[2], t[3][:i] + ((k, v),) + t[3][i + 1:])
                            res.append((nt, es))
                        return res or [(t, [])]
            return [(t, [])]
        if not hasattr(self, '_byphi'):
            self._byphi = {}
            for e, d in self.assigns.items():
                for p, v in d.items():
                    self._byphi.setdefault(p, []).append((e, v))
        if depth == 0:
            return [(t, [])]
        res = []
        for e, v in self._byphi.get(t, ()):
            if e[0] not in self.reach:
                continue
            if v == t:
                continue
            for leaf, es in self.cases(v, depth - 1):
                res.append((leaf, [(t, e)] + es))
        return res or [(t, [])]

    def path_via(self, edges, n, avoid=None, edge_ok=None):
        """a path root -> n that takes the phi choices `edges` (outermost first, as returned by cases)"""
        byid = self.byid()
        cur = [self.root]
        full = []
        seq = list(reversed(edges))
        for i in range(len(seq) + 1):
            goal = byid[seq[i][1][0]] if i < len(seq) else n
            live = {seq[i - 1][0]} if i else set()

            def ok(a, b, c):
                if edge_ok is not None and not edge_ok(a, b, c):
                    return False
                if live and live & set(self.assigns.get((a.id, b.id), ())):
                    return False
                return True
            p = self.path(cur[0], lambda x: x is goal, avoid=avoid, edge_ok=ok) if cur[0] is not goal else [goal]
            if p is None:
                return None
            full += p
            if i < len(seq):
                a, b = byid[seq[i][1][0]], byid[seq[i][1][1]]
                cs = [c for m, c in a.succ if m is b]
                if edge_ok is not None and not any(edge_ok(a, b, c) for c in cs):
                    return None
                cur = [b]
        return full

    def byid(self):
        if not hasattr(self, '_byid'):
            self._byid = {n.id: n for n in self.nodes}
        return self._byid

    def preds(self):
        if self._pred is None:
            p = {}
            for n in self.nodes:
                if n.id not in self.reach:
                    continue
                for m, c in n.succ:
                    p.setdefault(m.id, []).append((n, c))
            self._pred = p
        return self._pred

    def guards(self, node, limit=2000):
        """conditions that hold on every path from the root to node (edge dominators)"""
        return self._guard_map().get(node.id, frozenset())

    def _guard_map(self):
        if hasattr(self, '_gm'):
            return self._gm
        # forward must-analysis: set of (term, polarity) established on every path (conditions are over immutable terms or
        # memory paths; the latter are kept - callers decide whether that matters)
        order = []
        seen = set()
        st = [(self.root, 0)]
        # reverse postorder
        stack = [(self.root, iter([m for m, _ in self.root.succ]))]
        seen.add(self.root.id)
        post = []
        while stack:
            n, it = stack[-1]
            adv = False
            for m in it:
                if m.id not in seen:
                    seen.add(m.id)
                    stack.append((m, iter([x for x, _ in m.succ])))
                    adv = True
                    break
            if not adv:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        val = {self.root.id: frozenset()}
        preds = self.preds()
        ch = True
        it = 0
        while ch and it < 30:
            ch = False
            it += 1
            for n in rpo:
                if n is self.root:
                    continue
                cur = None
                for p, c in preds.get(n.id, []):
                    v = val.get(p.id)
                    if v is None:
                        continue
                    v = v | frozenset(c) if c else v
                    cur = v if cur is None else (cur & v)
                if cur is None:
                    continue
                if val.get(n.id) != cur:
                    val[n.id] = cur
                    ch = True
        self._gm = val
        return val


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from subterms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            if y and isinstance(y[0], str) and len(y) == 2 and t[0] == 'agg' and isinstance(y[1], tuple):
                                yield from subterms(y[1])
                            else:
                                yield from subterms(y)
