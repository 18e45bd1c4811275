"""Text-MIR front end: splits rustc's `-Zunpretty=mir` output into functions and parses them on demand.

Only the resolved program is read: callee paths, places, types and control flow come from rustc.
"""
import re, os, sys, bisect

sys.setrecursionlimit(20000)

OPEN = {'(': ')', '[': ']', '{': '}'}


def skip_string(s, i):
    # s[i] == '"'
    i += 1
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            i += 2
            continue
        if c == '"':
            return i + 1
        i += 1
    return n


def match_close(s, i):
    """index just after the bracket that closes s[i] (string aware)"""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            # char literal
            j = s.find("'", i + 2 if s[i + 1] != '\\' else i + 3)
            if j != -1 and j - i < 12:
                i = j + 1
                continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return n


def split_top(s, sep=','):
    """split at top level commas (brackets, generics and strings aware)"""
    out = []
    depth = 0
    ang = 0
    last = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.find("'", i + 2 if s[i + 1] != '\\' else i + 3)
            if j != -1 and j - i < 12:
                i = j + 1
                continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '<':
            ang += 1
        elif c == '>' and (i == 0 or s[i - 1] not in '-='):
            ang -= 1
        elif c == sep and depth == 0 and ang <= 0:
            out.append(s[last:i].strip())
            last = i + 1
        i += 1
    t = s[last:].strip()
    if t:
        out.append(t)
    return out


class Place:
    __slots__ = ('local', 'proj')

    def __init__(self, local, proj):
        self.local = local
        self.proj = proj  # tuple of ('deref',) ('field', n, ty) ('dc', variant) ('index', local) ('cidx', text)

    def __repr__(self):
        return 'P(_%d%s)' % (self.local, ''.join(str(p) for p in self.proj))


def parse_place(s, i=0):
    """returns (Place, next index)"""
    c = s[i]
    if c == '_':
        j = i + 1
        while j < len(s) and s[j].isdigit():
            j += 1
        pl = Place(int(s[i + 1:j]), ())
        i = j
    elif c == '(':
        if s[i + 1] == '*':
            pl, j = parse_place(s, i + 2)
            assert s[j] == ')', s[i:i + 80]
            pl = Place(pl.local, pl.proj + (('deref',),))
            i = j + 1
        else:
            pl, j = parse_place(s, i + 1)
            if s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                end = match_close(s, i)
                pl = Place(pl.local, pl.proj + (('field', int(m.group(1)), s[m.end():end - 1]),))
                i = end
            elif s.startswith(' as ', j):
                end = match_close(s, i)
                pl = Place(pl.local, pl.proj + (('dc', s[j + 4:end - 1]),))
                i = end
            else:
                raise ValueError('place ' + s[i:i + 120])
    else:
        raise ValueError('place ' + s[i:i + 120])
    while i < len(s) and s[i] == '[':
        end = match_close(s, i)
        inner = s[i + 1:end - 1]
        if re.match(r'_\d+$', inner):
            pl = Place(pl.local, pl.proj + (('index', int(inner[1:])),))
        else:
            pl = Place(pl.local, pl.proj + (('cidx', inner),))
        i = end
    return pl, i


def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('use', parse_place(s, 5)[0])
    if s.startswith('copy '):
        return ('use', parse_place(s, 5)[0])
    if s.startswith('const '):
        return ('const', s[6:])
    if s.startswith('_') or s.startswith('('):
        return ('use', parse_place(s)[0])
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Offset',
          'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}
UNOPS = {'Not', 'Neg'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&/*tls*/') or s.startswith('/*tls*/'):
        return ('opq', s)
    if s.startswith('deref_copy '):
        return ('use', parse_place(s, 11)[0])
    if s.startswith('&raw const '):
        return ('ref', 'raw', parse_place(s, 11)[0])
    if s.startswith('&raw mut '):
        return ('ref', 'rawmut', parse_place(s, 9)[0])
    if s.startswith('&mut '):
        return ('ref', 'mut', parse_place(s, 5)[0])
    if s.startswith('&shallow '):
        return ('ref', 'shared', parse_place(s, 9)[0])
    if s.startswith('&unique '):
        return ('ref', 'mut', parse_place(s, 8)[0])
    if s.startswith('&'):
        return ('ref', 'shared', parse_place(s, 1)[0])
    m = re.match(r'([A-Za-z]+)\(', s)
    if m:
        op = m.group(1)
        end = match_close(s, m.end() - 1)
        if end == len(s):
            inner = s[m.end():end - 1]
            if op in BINOPS:
                a, b = split_top(inner)
                return ('bin', op, parse_operand(a), parse_operand(b))
            if op in UNOPS:
                return ('un', op, parse_operand(inner))
            if op == 'Len':
                return ('len', parse_place(inner)[0])
            if op == 'discriminant':
                return ('disc', parse_place(inner)[0])
            if op in ('SizeOf', 'AlignOf'):
                return ('const', op + '(' + inner + ')')
            if op == 'ShallowInitBox':
                a = split_top(inner)
                return ('opq', op)
            if op == 'CopyForDeref':
                return ('use', parse_place(inner)[0])
    mm = re.match(r'(.*) as (.*) \(([A-Za-z(), ]+)\)$', s)
    if mm and (s.startswith('move ') or s.startswith('_') or s.startswith('(') or s.startswith('const ') or s.startswith('copy ')):
        # the ' as ' must be the top level one
        try:
            if s.startswith('const '):
                # const path as ty (kind)
                return ('cast', parse_operand(mm.group(1)), mm.group(2), mm.group(3))
            st = s[5:] if s[:5] in ('move ', 'copy ') else s
            pl, j = parse_place(st)
            rest = st[j:]
            m2 = re.match(r' as (.*) \(([A-Za-z(), ]+)\)$', rest)
            if m2:
                return ('cast', ('use', pl), m2.group(1), m2.group(2))
        except (ValueError, AssertionError, AttributeError):
            pass
    if s.startswith('move ') or s.startswith('copy ') or s.startswith('const '):
        return ('use' if not s.startswith('const ') else 'const', parse_operand(s)[1])
    if s.startswith('['):
        end = match_close(s, 0)
        if end == len(s):
            inner = s[1:-1]
            parts = split_top(inner, ';')
            if len(parts) == 2:
                return ('repeat', parse_operand(parts[0]), parts[1])
            return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('_') or s.startswith('('):
        try:
            pl, j = parse_place(s)
            if j == len(s):
                return ('use', pl)
        except (ValueError, AssertionError, IndexError, AttributeError):
            pass
        if s.startswith('('):
            return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.endswith('}') and ' {' in s:
        k = s.index(' {')
        name = s[:k]
        body = s[k + 2:-1]
        fs = []
        for x in split_top(body):
            f, v = x.split(': ', 1)
            fs.append((f.strip(), parse_operand(v)))
        return ('agg', name, fs)
    return ('opq', s)


class Func:
    def __init__(self, name, header, text, crate):
        self.name = name
        self.crate = crate
        self._text = text
        self._parsed = False
        self.header = header

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        # args
        k = h.index('(_1: ') if '(_1: ' in h else h.index('()')
        # fn name may contain parens? use position right after the name
        end = match_close(h, k)
        inner = h[k + 1:end - 1]
        self.args = []
        self.types = {}
        for a in split_top(inner):
            m = re.match(r'_(\d+): (.*)$', a, re.S)
            self.args.append(int(m.group(1)))
            self.types[int(m.group(1))] = m.group(2)
        m = re.match(r' -> (.*) \{$', h[end:])
        self.ret = m.group(1) if m else '()'
        self.types[0] = self.ret
        self.debug = {}
        self.blocks = {}
        self.spans = {}
        cur = None
        last = None
        user = ''
        pend = None
        body = self._text[len(h) + (3 if self._text.startswith('fn ') else 0):]
        for line in body.split('\n'):
            st = line.strip()
            if not st:
                continue
            if pend is not None:
                st = pend + ' ' + st
                pend = None
            if cur is not None and ' // scope ' not in st and not st.startswith('//') and st != '}' and not re.match(r'bb\d+( \(cleanup\))?: \{$', st):
                pend = st
                continue
            if st.startswith('//'):
                if last is not None and st.startswith('// + literal: '):
                    m = re.search(r'Unevaluated\((.*), \[.*\], ', st)
                    if m:
                        last[3].append(m.group(1))
                continue
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', st)
            if m:
                cur = int(m.group(1))
                self.blocks[cur] = []
                if m.group(2):
                    self.blocks[cur] = None
                continue
            if cur is None:
                m = re.match(r'let (?:mut )?_(\d+): (.*?);\s+//', st)
                if m:
                    self.types[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r'debug (.*?) => (.*?);\s+//', st)
                if m:
                    self.debug.setdefault(m.group(1), []).append(m.group(2))
                continue
            if st == '}':
                continue
            if self.blocks.get(cur) is None:
                continue
            # the comment
            k = st.rfind(' // scope ')
            span = ''
            if k != -1:
                mm = re.match(r' // scope \d+ at (.*)$', st[k:])
                span = mm.group(1) if mm else ''
                st = st[:k].rstrip()
            if st.endswith(';'):
                st = st[:-1]
            rec = [st, span, None, [], user]
            if span and not span.startswith('/'):
                user = span
            self.blocks[cur].append(rec)
            last = rec
        pass
        # parse statements lazily into tuples
        for b, recs in self.blocks.items():
            if recs is None:
                continue
            for r in recs:
                r[2] = parse_stmt(r[0])
        return self

    def succs(self, b):
        recs = self.blocks.get(b)
        if not recs:
            return []
        t = recs[-1][2]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]]
        if k in ('call',):
            return [t[4]] if t[4] is not None else []
        if k in ('assert',):
            return [t[3]]
        if k == 'drop':
            return [t[2]]
        return []


def parse_target(s):
    s = s.strip()
    m = re.match(r'bb(\d+)$', s)
    if m:
        return int(m.group(1))
    m = re.match(r'\[(?:return|success): bb(\d+)', s)
    if m:
        return int(m.group(1))
    return None


def find_top_arrow(s):
    """position of the last ' -> ' outside of brackets and strings"""
    pos = None
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif depth == 0 and s.startswith(' -> ', i):
            rest = s[i + 4:]
            if re.match(r'(bb\d+$|\[return: bb\d+|unwind)', rest):
                pos = i
        i += 1
    return pos


def parse_call_expr(s):
    """CALLEE(args) -> (callee text, [operands])"""
    # forward scan to find the '(' whose close is the end of s, at angle depth 0
    i = 0
    n = len(s)
    depth = 0
    ang = 0
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == '<':
            ang += 1
        elif c == '>' and s[i - 1] not in '-=':
            ang -= 1
        elif c in '([{':
            if c == '(' and ang == 0 and match_close(s, i) == n:
                return s[:i], [parse_operand(x) for x in split_top(s[i + 1:n - 1])]
            i = match_close(s, i)
            continue
        i += 1
    return None


STMT_NOP = ('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'Retag', 'Coverage', 'ConstEvalCounter')


def parse_stmt(st):
    for p in STMT_NOP:
        if st.startswith(p):
            return ('nop',)
    if st == 'return':
        return ('return',)
    if st in ('unreachable', 'resume', 'abort'):
        return ('dead',)
    if st.startswith('goto -> '):
        return ('goto', int(st[10:]))
    if st.startswith('Deinit('):
        return ('deinit', parse_place(st, 7)[0])
    if st.startswith('switchInt('):
        end = match_close(st, 9)
        op = parse_operand(st[10:end - 1])
        m = re.match(r' -> \[(.*)\]$', st[end:])
        arms = []
        for x in m.group(1).split(', '):
            k, v = x.split(': ')
            arms.append((None if k == 'otherwise' else int(k), int(v[2:])))
        return ('switch', op, arms)
    if st.startswith('assert('):
        end = match_close(st, 6)
        parts = split_top(st[7:end - 1])
        c = parts[0]
        neg = False
        if c.startswith('!'):
            neg = True
            c = c[1:]
        return ('assert', parse_operand(c), not neg, parse_target(st[end + 4:]), parts[1] if len(parts) > 1 else '')
    if st.startswith('drop('):
        end = match_close(st, 4)
        return ('drop', parse_place(st, 5)[0], parse_target(st[end + 4:]))
    if st.startswith('discriminant('):
        pl, j = parse_place(st, 13)
        return ('setdisc', pl, int(st.split(' = ')[1]))
    if st.startswith('falseEdge') or st.startswith('falseUnwind'):
        m = re.search(r'bb(\d+)', st)
        return ('goto', int(m.group(1)))
    if st.startswith('assume(') or st.startswith('copy_nonoverlapping('):
        return ('nop',)
    try:
        pl, j = parse_place(st)
    except (ValueError, AssertionError, IndexError):
        return ('opq', st)
    if not st.startswith(' = ', j):
        return ('opq', st)
    rhs = st[j + 3:]
    arrow = find_top_arrow(rhs)
    if arrow is not None:
        ce = parse_call_expr(rhs[:arrow])
        return ('call', pl, ce[0], ce[1], parse_target(rhs[arrow + 4:]))
    r = parse_rvalue(rhs)
    if r[0] == 'opq' and rhs.endswith(')'):
        ce = parse_call_expr(rhs)
        if ce is not None and not rhs.startswith('ShallowInitBox'):
            return ('call', pl, ce[0], ce[1], None)
    return ('assign', pl, r)


FN_RE = re.compile(r'^(fn |const |static |promoted\[\d+\] in )', re.M)


def load(path, crate):
    """returns (funcs: name -> Func, consts: name -> text)"""
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    funcs = {}
    consts = {}
    pos = [m.start() for m in FN_RE.finditer(text)]
    pos.append(len(text))
    for a, b in zip(pos, pos[1:]):
        eol = text.index('\n', a)
        while not text.endswith(' {', a, eol) and eol < b - 1 and '\n' in text[eol + 1:b]:
            eol = text.index('\n', eol + 1)
        head = text[a:eol]
        end = text.find('\n}\n', a)
        body = text[a:(end + 2) if end != -1 else b]
        if head.startswith('fn '):
            # name up to the argument list
            k = head.find('(_1: ')
            if k == -1:
                k = head.find('() -> ')
            name = head[3:k]
            if name in funcs:
                name = name + '#dup'
            funcs[name] = Func(name, head[3:], body, crate)
        else:
            m = re.match(r'(?:const|static) (?:mut )?(.*?): (.*) = ', head)
            if m:
                consts[m.group(1)] = body
            else:
                m = re.match(r'(promoted\[\d+\] in .*?): (&.*|\S+.*) = \{', head)
                if m:
                    consts[m.group(1)] = body
    return funcs, consts
