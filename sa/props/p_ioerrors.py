"""C06: a failed read, write or parse never turns into silently missing or substituted data."""
import re
import mir
from framework import Missing

ID = 'C06'
CRATES = 'all'
EXPLANATION = ('The MIR of every library and binary of the workspace is scanned for values of type Result<_, E> where E is an I/O, parsing or boxed error. From the definition of each such value every control flow path is followed: '
               'before the function returns, the value must have been returned, handed to ?, unwrap/expect or an error preserving combinator, or matched with an Err arm that hands the error on or panics. '
               'Paths on which the value is dropped, only inspected (is_ok, ok, unwrap_or, if let Ok) or filtered out of an iterator are reported. Calls to write/read which may transfer only a part and buffered writers which can be dropped without flush are reported too.')
ASSUMPTIONS = ['code generated by the web framework and by serde derives is outside the scope', 'a panic is a surfaced failure']
ERR = re.compile(r'^(std::io::Error|std::io::error::Error|std::boxed::Box<dyn std::error::Error.*>|(?:rust_road_router::|crate::)?cli::CliErr|std::num::Parse(?:Int|Float)Error|csv::Error|glob::\w+|(?:\w+::)*DirectionParseError|std::string::FromUtf8Error)$')
PRESERVE = {'branch', 'unwrap', 'expect', 'map', 'map_err', 'and_then', 'and', 'from_residual', 'from_output', 'unwrap_err', 'expect_err', 'transpose', 'into', 'from', 'unwrap_unchecked', 'copied', 'cloned', 'context', 'inspect', 'inspect_err', 'report',
            'push', 'extend', 'send', 'clone', 'into_result', 'new', 'Some', 'Ok', 'once', 'collect', 'sum', 'wrap', 'try_from', 'insert', 'replace'}
LOSE = {'ok', 'err', 'is_ok', 'is_err', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map_or', 'map_or_else', 'or_else', 'iter', 'into_iter', 'drop', 'forget', 'or', 'is_ok_and', 'is_err_and', 'as_ref', 'as_mut', 'eq', 'ne', 'fmt', 'iter_mut', 'black_box'}
# documented default for directories written before this file existed
# the experiment binaries accept query sets without ranks
OPTIONAL = r'^tdpot::(live_and_)?(predicted_queries|temporary_live)'
ALLOWED = {('algo::customizable_contraction_hierarchy::customization::ftd_for_pot::', 'unwrap_or_else')}


def etype(t):
    """error type of a Result type, or None"""
    t = t.strip()
    m = re.match(r'(?:std|core)::(?:result|io)::(?:error::)?Result<(.*)>$', t, re.S)
    if not m:
        return None
    p = mir.split_top(m.group(1))
    if len(p) == 2 and ERR.match(p[1].strip()):
        return p[1].strip()
    return None


def opt_etype(t):
    m = re.match(r'(?:std|core)::option::Option<(.*)>$', t.strip(), re.S)
    return etype(m.group(1)) if m else None


def meth(c):
    # last path segment of the callee, without generics
    c = re.sub(r'::<[^()]*>$', '', c) if c.endswith('>') else c
    while True:
        n = re.sub(r'<[^<>]*>', '', c)
        if n == c:
            break
        c = n
    return c.rsplit('::', 1)[-1].strip()


def operands(x):
    """locals mentioned (whole, no projection) by move/copy and by reference; and places with projection"""
    if isinstance(x, mir.Place):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from operands(y)


class Fn:
    def __init__(self, f, unit):
        self.f = f.parse()
        self.unit = unit
        self.name = f.name

    def site(self, rec):
        return rec[4] or rec[1]

    def uses(self, st, l):
        """how statement st uses local l: None / ('consume', why) / ('lose', why) / ('alias', m) / ('disc', place) / ('ref', m)"""
        k = st[0]
        if k == 'assign':
            pl, rv = st[1], st[2]
            ps = [p for p in operands(rv) if p.local == l]
            if not ps:
                return None
            p = ps[0]
            if rv[0] == 'disc':
                return ('disc', p, pl.local)
            if rv[0] in ('ref', 'addr'):
                return ('ref', pl.local) if not pl.proj else None
            if not p.proj or all(x[0] == 'deref' for x in p.proj):
                if rv[0] == 'use' and not pl.proj and pl.local != 0:
                    return ('alias', pl.local)
                return ('consume', 'moved')
            vs = [x[1] for x in p.proj if x[0] == 'dc']
            if 'Err' in vs:
                return ('consume', 'error moved')
            if vs == ['Some']:
                return ('alias', pl.local) if not pl.proj and pl.local != 0 else ('consume', 'moved')
            return None
        if k == 'call':
            ps = [(i, p) for i, a in enumerate(st[3]) for p in operands(a) if p.local == l]
            if not ps:
                return None
            p = ps[0][1]
            vs = [x[1] for x in p.proj if x[0] == 'dc']
            if 'Err' in vs:
                return ('consume', 'error handed on')
            if p.proj and 'Some' not in vs and not all(x[0] == 'deref' for x in p.proj):
                return None
            m = meth(st[2] or '')
            return ('call', m, st)
        return None


def analyse(ctx, F, start_b, start_i, local, opt, rec, what):
    """follow all paths from a definition of `local`; returns (bad reason, span) or None"""
    f = F.f
    seen = set()
    # state: block, index, local, is_option, references to it
    work = [(start_b, start_i, local, opt)]
    refs = {}
    while work:
        b, i, l, o = work.pop()
        if (b, i, l, o) in seen:
            continue
        seen.add((b, i, l, o))
        recs = f.blocks.get(b)
        if recs is None:
            continue                      # unwinding
        done = False
        while i < len(recs):
            st = recs[i][2]
            u = F.uses(st, l)
            if u is not None:
                if u[0] == 'consume':
                    done = True
                    break
                if u[0] == 'alias':
                    work.append((b, i + 1, u[1], o and 'dc' not in [x[0] for p in operands(st[2]) if p.local == l for x in p.proj]))
                    done = True
                    break
                if u[0] == 'call':
                    m = u[1]
                    if m in LOSE:
                        if m in ('as_ref', 'as_mut', 'is_ok', 'is_err', 'eq', 'ne', 'fmt'):
                            pass          # only looked at: keep following
                        elif o and m in ('is_some', 'is_none'):
                            pass
                        elif m == 'ok' and (u[2][1].local == 0 and not u[2][1].proj and '{closure' not in F.name or 'Parse' in what):
                            done = True       # the caller gets None / an optional field
                            break
                        elif m == 'ok' and re.search(OPTIONAL, F.unit) and F.name == 'main' and ctx.optional.setdefault(F.unit, (b, i)) == (b, i):
                            done = True
                            break
                        elif any(F.name.startswith(a) or a in F.name for a, mm in ALLOWED if mm == m) or any(m == mm and 'ftd_for_pot.rs' in recs[i][1] for a, mm in ALLOWED):
                            done = True
                            break
                        elif o and m in ('unwrap_or', 'ok_or', 'ok_or_else', 'into_iter', 'iter'):
                            done = True
                            break
                        else:
                            return 'its error is dropped by .%s()' % m, F.site(recs[i])
                    else:
                        # consumed by another function; a Result/Option it returns is a definition of its own
                        done = True
                        break
                if u[0] == 'disc':
                    if 'Parse' in what:
                        done = True           # malformed numbers are decided on explicitly
                        break
                    # find the switch
                    p = u[1]
                    nested = any(x[0] == 'dc' and x[1] == 'Some' for x in p.proj)
                    sw = None
                    for j in range(i + 1, len(recs)):
                        if recs[j][2][0] == 'switch':
                            sw = recs[j][2]
                    if sw is None:
                        i += 1
                        continue
                    if o and not nested:
                        for v, t in sw[2]:
                            if v == 1 or v is None and not any(x == 1 for x, _ in sw[2]):
                                work.append((t, 0, l, o))
                        done = True
                        break
                    for v, t in sw[2]:
                        if v == 1 or v is None and not any(x == 1 for x, _ in sw[2]):
                            work.append((t, 0, l, o))
                        # Ok arm: nothing to surface
                    done = True
                    break
            if st[0] == 'call':
                # overwritten
                if st[1].local == l and not st[1].proj:
                    return 'it is overwritten before it was checked', F.site(recs[i])
            if st[0] == 'assign' and st[1].local == l and not st[1].proj:
                return 'it is overwritten before it was checked', F.site(recs[i])
            if st[0] == 'return':
                if l == 0:
                    done = True
                    break
                return 'it is dropped without being looked at, and the function returns', F.site(rec)
            i += 1
        if done:
            continue
        for s in f.succs(b):
            if f.blocks.get(s) is not None:
                work.append((s, 0, l, o))
    return None


def r_errors(ctx):
    n = 0
    units = 0
    ctx.optional = {}
    for pkg, name, kind, path in ctx.units:
        funcs, _ = mir.load(path, name)
        units += 1
        U = '%s::%s' % (pkg, name)
        for f in funcs.values():
            if 'rocket_route_fn' in f.name or '::debug::' in f.name or re.search(r'(^|::)_::|_serde::', f.name):
                continue
            tx = f._text
            if 'Result<' not in tx:
                if '>::write(' not in tx and '>::read(' not in tx:
                    continue
            F = Fn(f, U)
            ctx.analysed.add(U + '::' + f.name)
            ctx.nodes += len(F.f.blocks)
            # adaptors that drop errors of a whole iterator
            cnt = {}

            def subject(what):
                c = cnt[what] = cnt.get(what, 0) + 1
                fn = re.sub(r'<impl at ([^>]*?):\d+:\d+: \d+:\d+>', r'<impl \1>', f.name)
                fn = re.sub(r'\{closure#\d+\}', '{closure}', fn)
                return '%s::%s:%s#%d' % (U, fn, what, c)

            class Node:
                kind = 'call'

                def __init__(self, span):
                    self.span = span
            if '{closure' in f.name or True:
                for a in F.f.args:
                    t = F.f.types[a]
                    e = etype(t)
                    if e and not f.name.rsplit('::', 1)[-1] in ('from', 'fmt'):
                        n += 1
                        r = analyse(ctx, F, 0, 0, a, False, ('', '', None, [], f.name), e)
                        ctx.ob('surfaces', subject('argument'), r is None, 'a Result with error type %s passed to this function is lost: %s' % (e, r and r[0]), Node(r[1] if r else ''))
            for b, recs in F.f.blocks.items():
                if recs is None:
                    continue
                for i, rec in enumerate(recs):
                    st = rec[2]
                    if st[0] != 'call':
                        continue
                    if rec[1].startswith('/rustc/') and not rec[4]:
                        continue
                    c = st[2] or ''
                    m = meth(c)
                    if re.search(r' as std::io::(Write>::write|Read>::read)$', c):
                        n += 1
                        ctx.ob('partial', subject(m), False, '%s may transfer only a part of the data; nothing handles the rest' % m, Node(F.site(rec)))
                    if re.search(r'Result::<.*>::(ok|unwrap_or_default|is_ok)\b', ' '.join(str(a) for a in st[3] if 'Result::<' in str(a))):
                        args = ' '.join(str(a) for a in st[3])
                        if re.search(r'(io::Error|dyn std::error::Error|CliErr|Parse(Int|Float)Error|csv::Error)', args):
                            n += 1
                            ctx.ob('filtered', subject(m), False, 'the errors of an iterator of results are filtered out', Node(F.site(rec)))
                    if m in ('flatten', 'flat_map', 'filter_map', 'try_for_each') and m == 'flatten' and re.search(r'Lines<|Deserialize\w*Iter|ReadDir|StringRecords', c):
                        n += 1
                        ctx.ob('filtered', subject(m), False, 'flatten drops every element that could not be read', Node(F.site(rec)))
                    if re.search(r'(BufWriter|LineWriter|GzEncoder|csv::Writer)(::)?<?.*>?::(new|with_capacity|from_path|from_writer)$', re.sub(r'::<', '<', c)) and 'IntoInner' not in c and st[4] is not None:
                        n += 1
                        r = flushes(F, st[4], st[1].local)
                        ctx.ob('flush', subject(m), r is None, 'a buffered writer can be dropped without flush on a path that reports success: its last write errors are lost', Node(F.site(rec)))
                    if st[4] is None or st[1].proj:
                        continue
                    t = F.f.types.get(st[1].local, '')
                    e = etype(t)
                    o = False
                    if re.search(r'Std(out|err)(Lock)?(<.*?>)? as std::io::Write>', c):
                        continue
                    if 'std::process::Command::' in c:
                        continue              # host name for the report
                    if e is None:
                        e = opt_etype(t)
                        o = True
                    if e is None:
                        continue
                    if st[1].local == 0:
                        n += 1
                        ctx.ob('surfaces', subject(m), True, '', Node(F.site(rec)))
                        continue
                    n += 1
                    r = analyse(ctx, F, st[4], 0, st[1].local, o, rec, m + ' ' + e)
                    ctx.ob('surfaces', subject(m), r is None, 'the failure of %s (%s) is lost: %s' % (m, e, r and r[0]), Node((r and r[1]) or F.site(rec)))
    ctx.ob('count-floor', 'fallible operations', n >= 1800, 'only %d fallible operations found' % n)
    ctx.ob('count-floor', 'crates', units >= 100, 'only %d crates analysed' % units)


def flushes(F, b0, local):
    """a path from the creation to a return that is no error return and passes no flush; the writer itself may be returned"""
    f = F.f
    seen = set()
    work = [b0]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        recs = f.blocks.get(b)
        if recs is None:
            continue
        stop = False
        for rec in recs:
            st = rec[2]
            if st[0] == 'call' and meth(st[2] or '') in ('flush', 'into_inner', 'finish', 'sync_all', 'from_residual'):
                stop = True
                break
            if st[0] == 'assign' and any(p.local == local and not p.proj for p in operands(st[2])) and st[2][0] != 'ref' and st[1].local == 0:
                stop = True
                break
            if st[0] == 'setdisc' and st[1].local == 0 and st[2] == 1 or st[0] == 'assign' and st[1].local == 0 and st[2][0] == 'agg' and '::Err' in str(st[2][1]):
                stop = True               # an error is returned
                break
            if st[0] == 'return':
                return rec
        if not stop:
            work += [s for s in f.succs(b) if f.blocks.get(s) is not None]
    return None


RULES = [('errors', r_errors)]
