"""Whole-program index over the parsed MIR: callee resolution, struct field names, constants, closures."""
import os, re, bisect
import mir


def strip_generics(s):
    """remove <...> groups that are generic arguments (keeps a leading <T as Trait> form untouched by the caller)"""
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or s[i - 1] not in '-='):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    while '::::' in r:
        r = r.replace('::::', '::')
    return r.rstrip(':')


def match_angle(s, i):
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return n


def strip_refs(t):
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:].lstrip()
            if t.startswith("'"):
                k = t.find(' ')
                t = t[k + 1:]
            if t.startswith('mut '):
                t = t[4:]
            continue
        if t.startswith('*const '):
            t = t[7:]
            continue
        if t.startswith('*mut '):
            t = t[5:]
            continue
        if t.startswith('std::boxed::Box<') and t.endswith('>'):
            t = mir.split_top(t[16:-1])[0]
            continue
        return t


def short(t):
    """last path segment of a type, without generics"""
    t = strip_refs(t)
    if t.startswith('[closure@'):
        return t
    if t.startswith('['):
        return '[]'
    if t.startswith('('):
        return '()'
    if t.startswith('<'):
        return '<proj>'
    if t.startswith('impl ') or t.startswith('dyn '):
        return t
    return strip_generics(t).split('::')[-1]


def base_path(t):
    t = strip_refs(t)
    return strip_generics(t)


def generic_args(t):
    t = strip_refs(t)
    k = t.find('<')
    if k <= 0 or not t.endswith('>'):
        return []
    return [x for x in mir.split_top(t[k + 1:-1]) if not x.startswith("'")]


class Callee:
    __slots__ = ('text', 'selfty', 'trait', 'method', 'path', 'fgen', 'tgen')

    def __init__(self, text):
        self.text = text
        self.selfty = None
        self.trait = None
        self.tgen = None
        self.fgen = ''
        t = text
        if t.startswith('<'):
            e = match_angle(t, 0)
            inner = t[1:e - 1]
            rest = t[e:]
            k = self._top_as(inner)
            if k is not None:
                self.selfty = inner[:k].strip()
                tr = inner[k + 4:].strip()
                self.tgen = tr
                self.trait = strip_generics(tr).split('::')[-1]
            else:
                self.selfty = inner
            self.method = strip_generics(rest.lstrip(':'))
            self.path = None
            self.fgen = rest
        else:
            k = t.find('<impl ')
            if k != -1 and not t[k:].startswith('<impl at') and t[match_angle(t, k):].startswith('::'):
                e = match_angle(t, k)
                self.selfty = t[k + 6:e - 1]
                self.method = strip_generics(t[e:].lstrip(':'))
                self.path = None
                self.fgen = t[e:]
            else:
                p = strip_generics(t)
                self.path = p
                segs = p.split('::')
                self.method = segs[-1]
                self.fgen = t
                if len(segs) >= 2 and segs[-2][:1].isupper():
                    # Type::<..>::method
                    j = t.rfind('::' + segs[-1])
                    st = t[:j]
                    if st.endswith('>') and '::<' in st:
                        # turn  a::B::<X>  into a::B<X>
                        depth = 0
                        for q in range(len(st) - 1, -1, -1):
                            if st[q] == '>' and st[q - 1] not in '-=':
                                depth += 1
                            elif st[q] == '<':
                                depth -= 1
                                if depth == 0:
                                    break
                        st = st[:q].rstrip(':') + st[q:]
                    self.selfty = st

    @staticmethod
    def _top_as(s):
        d = 0
        i = 0
        pos = None
        while i < len(s):
            c = s[i]
            if c in '<([{':
                d += 1
            elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
                d -= 1
            elif d == 0 and s.startswith(' as ', i):
                pos = i
            i += 1
        return pos

    @property
    def key(self):
        """Type.method (short)"""
        if self.selfty is not None:
            return short(self.selfty) + '.' + self.method
        return self.path


_callee_cache = {}


def callee(text):
    c = _callee_cache.get(text)
    if c is None:
        c = _callee_cache[text] = Callee(text)
    return c


CLOSURE_RE = re.compile(r'\[closure@([^\]]*?)\]')


class Program:
    def __init__(self, repo, mirs):
        """mirs: list of (crate name, crate src root (relative), mir file)"""
        self.repo = repo
        self.funcs = {}
        self.consts = {}
        self.closures = {}
        self.src = {}
        self.structs = {}   # path -> [(field name, type text)]
        self.enums = {}     # path -> [variant names]
        self.struct_files = {}
        self.inherent = {}  # (Type, method) -> [(module, func)]
        self.traitimpl = {} # (Type, Trait, method) -> [(module, trait text, func, header)]
        self.impl_of = {}   # func name -> (selftype text, trait text or None)
        self.blanket = {}
        for crate, root, path in mirs:
            fs, cs = mir.load(path, crate)
            self._scan_sources(crate, root)
            for n, f in fs.items():
                f.root = root
                self.funcs[n if crate == 'rust_road_router' else crate + '::' + n] = f
                self._index(n if crate == 'rust_road_router' else crate + '::' + n, f)
            for n, c in cs.items():
                self.consts[n if crate == 'rust_road_router' else crate + '::' + n] = c

    # ---- sources
    def source(self, f):
        t = self.src.get(f)
        if t is None:
            p = os.path.join(self.repo, f)
            try:
                with open(p, encoding='utf-8', errors='replace') as fh:
                    t = fh.read().split('\n')
            except OSError:
                t = []
            self.src[f] = t
        return t

    def snippet(self, span):
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)', span or '')
        if not m:
            return ''
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        ls = self.source(f)
        if not ls or l2 > len(ls):
            return ''
        if l1 == l2:
            return ls[l1 - 1][c1 - 1:c2 - 1]
        return '\n'.join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])

    def vec_macro(self, span):
        """constant repeated by the vec![C; n] around a span"""
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)', span or '')
        ls = self.source(m.group(1)) if m else None
        if not ls or int(m.group(2)) > len(ls):
            return None
        l, c = int(m.group(2)), int(m.group(3))
        pre = '\n'.join(ls[max(0, l - 4):l - 1] + [ls[l - 1][:c - 1]])
        i = pre.rfind('vec![')
        mm = re.match(r'vec!\[\s*(?:\w+::)*([A-Z][A-Z0-9_]+)\s*;', pre[i:]) if i >= 0 else None
        return mm.group(1) if mm else None

    def _scan_sources(self, crate, root):
        base = os.path.join(self.repo, root)
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if not f.endswith('.rs'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                mod = os.path.relpath(p, base)[:-3].split(os.sep)
                if mod[-1] in ('mod', 'lib', 'main'):
                    mod = mod[:-1]
                if crate != 'rust_road_router':
                    mod = [crate] + mod
                self._scan_types(rel, '::'.join(mod))

    def _scan_types(self, rel, mod):
        text = '\n'.join(self.source(rel))
        clean = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), text)
        clean = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), clean, flags=re.S)
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)', clean):
            kind, name = m.group(1), m.group(2)
            i = m.end()
            if i < len(clean) and clean[i] == '<':
                i = match_angle(clean, i)
            # skip where clause
            j = i
            while j < len(clean) and clean[j] not in '{(;':
                if clean[j] == '<':
                    j = match_angle(clean, j)
                else:
                    j += 1
            if j >= len(clean):
                continue
            path = (mod + '::' if mod else '') + name
            self.struct_files[path] = rel
            if clean[j] == ';':
                if kind == 'struct':
                    self.structs[path] = []
                continue
            e = mir.match_close(clean, j)
            body = clean[j + 1:e - 1]
            body = re.sub(r'#\s*\[[^\]]*\]', '', body)
            parts = mir.split_top(body)
            if kind == 'struct':
                if clean[j] == '(':
                    self.structs[path] = [(str(k), re.sub(r'^pub(\([^)]*\))?\s+', '', p)) for k, p in enumerate(parts)]
                else:
                    fl = []
                    for p in parts:
                        mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', p, re.S)
                        if mm:
                            fl.append((mm.group(1), ' '.join(mm.group(2).split())))
                    self.structs[path] = fl
            else:
                vs = []
                for p in parts:
                    mm = re.match(r'(\w+)', p)
                    if mm:
                        vs.append(mm.group(1))
                self.enums[path] = vs

    # ---- definitions
    IMPL_RE = re.compile(r'^(.*?)<impl at ([^>]*?)>::(.*)$')

    def _index(self, name, f):
        m = re.match(r'^(.*?)<impl at (.*?:\d+:\d+: \d+:\d+)>::(.*)$', name)
        tail = name
        if m:
            mod, span, tail = m.group(1).rstrip(':'), m.group(2), m.group(3)
            f.implspan = span
            hdr = self.impl_header(span)
            f.impl = hdr
            self.impl_of[name] = hdr
            f.module = mod
            if '::' not in tail and hdr is not None:
                selfty, trait = hdr
                ty = short(selfty)
                if trait is None:
                    self.inherent.setdefault((ty, tail), []).append((mod, f))
                else:
                    tr = strip_generics(trait).split('::')[-1]
                    self.traitimpl.setdefault((ty, tr, tail), []).append((mod, trait, f, selfty))
        else:
            f.impl = None
            f.module = '::'.join(name.split('::')[:-1])
        if '{closure#' in name:
            h = f.header
            k = h.find('(_1: ')
            m2 = CLOSURE_RE.search(h[k:])
            if m2:
                self.closures[m2.group(1)] = f
        f.short = (short(f.impl[0]) + '.' if f.impl else '') + tail.split('::')[0] + (tail[len(tail.split('::')[0]):] if '::' in tail and f.impl else '')
        if not f.impl:
            f.short = name
        f.key = name

    _hdr_cache = None

    def impl_header(self, span):
        if self._hdr_cache is None:
            self._hdr_cache = {}
        if span in self._hdr_cache:
            return self._hdr_cache[span]
        s = ' '.join(self.snippet(span).split())
        r = None
        if s.startswith('impl') or s.startswith('unsafe impl'):
            t = s[s.index('impl') + 4:].strip()
            if t.startswith('<'):
                t = t[match_angle(t, 0):].strip()
            # cut where
            d = 0
            i = 0
            cut = len(t)
            while i < len(t):
                c = t[i]
                if c in '<([{':
                    if c == '{' and d == 0:
                        cut = i
                        break
                    d += 1
                elif c in ')]}' or (c == '>' and t[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and t.startswith('where', i) and (i == 0 or t[i - 1] == ' '):
                    cut = i
                    break
                i += 1
            t = t[:cut].strip()
            # top level ' for '
            d = 0
            k = None
            i = 0
            while i < len(t):
                c = t[i]
                if c in '<([':
                    d += 1
                elif c in ')]' or (c == '>' and t[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and t.startswith(' for ', i):
                    k = i
                i += 1
            if k is not None:
                r = (t[k + 5:].strip(), t[:k].strip())
            else:
                r = (t, None)
        elif re.match(r'^[\w:]+$', s):
            # derive: find the item after the attribute
            m = re.match(r'(.*?):(\d+):', span)
            ls = self.source(m.group(1))
            for l in ls[int(m.group(2)) - 1:int(m.group(2)) + 12]:
                mm = re.search(r'\b(?:struct|enum)\s+(\w+)', l)
                if mm:
                    r = (mm.group(1), s)
                    break
        self._hdr_cache[span] = r
        return r

    def resolve(self, c):
        """Callee -> Func or None"""
        if c.path is not None and c.trait is None:
            p = c.path
            for pre in ('', 'rust_road_router::'):
                if p.startswith(pre):
                    q = p[len(pre):]
                    f = self.funcs.get(q)
                    if f is not None:
                        return f
            segs = p.split('::')
            if segs[0] == 'rust_road_router':
                segs = segs[1:]
            if len(segs) >= 2 and segs[-2][:1].isupper():
                cands = self.inherent.get((segs[-2], segs[-1]), [])
                if len(cands) == 1:
                    mod = cands[0][0]
                    if segs[0] in ('std', 'core', 'alloc'):
                        return None
                    return cands[0][1]
                if cands:
                    mod = '::'.join(segs[:-2])
                    best = [f for m, f in cands if m == mod]
                    if len(best) > 1:
                        best = self._by_selfty(best, c.selfty)
                    if len(best) == 1:
                        return best[0]
                    if not best:
                        best = [f for m, f in cands if m.startswith(mod + '::')]
                        if len(best) == 1:
                            return best[0]
                        best = [f for m, f in cands if mod.startswith(m + '::')]
                        if len(best) == 1:
                            return best[0]
            return None
        if c.trait is not None:
            ty = short(c.selfty)
            cands = self.traitimpl.get((ty, c.trait, c.method), [])
            st = base_path(c.selfty)
            if st.startswith('rust_road_router::'):
                st = st[len('rust_road_router::'):]
            if ty[:1] in '[<(':
                return None
            if len(cands) > 1:
                tmod = '::'.join(st.split('::')[:-1])
                ex = [x for x in cands if x[0] == tmod]
                if ex:
                    cands = ex
                if len(cands) > 1:
                    tg = self._norm(c.tgen)
                    ex = [x for x in cands if self._norm(x[1]) == tg]
                    if ex:
                        cands = ex
            if len(cands) == 1:
                # `::` in the type path distinguishes concrete types from generic parameters
                if '::' in st or ty in self._types():
                    return cands[0][2]
                return None
            if not cands:
                if '::' not in st:
                    return None
                # default method of a workspace trait
                tp = strip_generics(c.tgen) + '::' + c.method
                if tp.startswith('rust_road_router::'):
                    tp = tp[len('rust_road_router::'):]
                return self.funcs.get(tp)
        return None

    def _by_selfty(self, fs, selfty):
        if selfty is None:
            return fs
        want = [short(x) for x in generic_args(selfty)]
        best = []
        for f in fs:
            have = [short(x) for x in generic_args(f.impl[0])]
            ok = len(have) == len(want) and all(a == b or (len(a) <= 2 or a.isupper()) for a, b in zip(have, want))
            if ok:
                best.append(f)
        return best or fs

    def _types(self):
        if not hasattr(self, '_tn'):
            self._tn = {p.split('::')[-1] for p in self.structs} | {p.split('::')[-1] for p in self.enums}
        return self._tn

    @staticmethod
    def _norm(t):
        t = re.sub(r"'\w+\s*", '', t or '')
        t = re.sub(r'[\w]+::', '', t)
        t = t.replace('NodeId>', 'u32>').replace('NodeId,', 'u32,')
        return re.sub(r'\s+', '', t)

    def field_name(self, ty, idx):
        p = base_path(ty)
        if p.startswith('rust_road_router::'):
            p = p[len('rust_road_router::'):]
        fl = self.structs.get(p)
        if fl is not None and idx < len(fl):
            return fl[idx][0]
        return str(idx)

    def struct_fields(self, path):
        return self.structs.get(path)

    def find(self, pat):
        """functions whose name matches the regex `pat` (on `Type.method` or path)"""
        r = re.compile(pat)
        return [f for n, f in self.funcs.items() if r.search(n) or r.search(f.short)]

    def method(self, ty, meth, mod=None, trait=None):
        """the unique definition of Type.method"""
        c = []
        if trait is None:
            c = [f for m, f in self.inherent.get((ty, meth), []) if mod is None or m.endswith(mod)]
        if not c:
            for (t, tr, me), l in self.traitimpl.items():
                if t == ty and me == meth and (trait is None or tr == trait):
                    c += [x[2] for x in l if mod is None or x[0].endswith(mod)]
        return c
