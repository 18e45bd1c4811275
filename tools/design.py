#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/gen.py (properties), sa/props (rules, explanations, assumptions), tools/design.txt (hand written parts) and the mutant / seed lists."""
import ast, glob, importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import gen


def load(p):
    s = importlib.util.spec_from_file_location('x' + os.path.basename(p)[:-3], p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def parts():
    out, cur = {}, None
    for l in open(os.path.join(V, 'tools/design.txt')):
        if l.startswith('@@ '):
            cur = l[3:].strip()
            out[cur] = ''
        else:
            out[cur] += l
    return {k: v.strip() for k, v in out.items()}


def main():
    D = parts()
    mods = {}
    for f in glob.glob(os.path.join(V, 'sa/props/p_*.py')):
        d = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = n.targets[0].id
                if k in ('ID', 'EXPLANATION', 'ASSUMPTIONS', 'CRATES'):
                    d[k] = ast.literal_eval(n.value)
                elif k == 'RULES':
                    d[k] = [e.elts[0].value for e in n.value.elts]
        d['file'] = os.path.relpath(f, V)
        if 'ID' in d:
            mods[d['ID']] = d
    muts = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools/mut_c*.py'))):
        for m in load(f).M:
            for p in m[1]:
                muts.setdefault(p, {'bug': [], 'ok': []})[m[2]].append(m[0])
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
        m = json.load(open(f))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
    o = ['# Static analysis of kit-algo/rust_road_router', '', D['intro'], '', '## The machinery', '', D['machinery'], '', '## Properties and how each is decided', '']
    for p in gen.PROPS:
        o += ['### %s %s' % (p['id'], p['title']), '']
        if p['na']:
            o += ['*Not applicable.* ' + p['na'], '']
            continue
        m = mods[p['id']]
        o += ['*Property.* ' + p['statement'], '',
              '*Quantified* ' + p['text'] + '. *Technique:* ' + p['technique'] + ' (`%s`).' % m['file'], '',
              '*What is analysed and against what.* ' + m['EXPLANATION'], '',
              '*Rules:* ' + ', '.join(m['RULES']) + '.', '']
        if D.get(p['id']):
            o += [D[p['id']], '']
        o += ['*Why beyond tests.* ' + p['why'], '', '*Trusted:* ' + '; '.join(m['ASSUMPTIONS']) + '. ' + (p['note'] or ''), '']
        q = muts.get(p['id'], {'bug': [], 'ok': []})
        o += ['*Tried on:* %d breaking edits (%s), %d behaviour preserving edits (%s).' % (
            len(q['bug']), ', '.join(q['bug']), len(q['ok']), ', '.join(q['ok'])), '']
        if D.get('missed ' + p['id']):
            o += ['*Not caught:* ' + D['missed ' + p['id']], '']
    o += ['## Planted bugs (/verif/seeded)', '', D['seeds'], '', '| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
    for p in sorted(seeds):
        for i, t in seeds[p]:
            o.append('| %s | %s | %s | %s |' % (i, p, t, 'not caught' if i in D.get('uncaught', '') else p))
    o += ['', '## Defects found in the repository', '', D['defects'], '', '## False alarms met while building, and what was done', '', D['alarms'], '', '## Limits', '', D['limits'], '']
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))


if __name__ == '__main__':
    main()
