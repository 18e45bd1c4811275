"""check.py <id>... | all : run the static checks of the given properties"""
import importlib, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))
import framework


def modules():
    res = {}
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props')
    for f in sorted(os.listdir(d)):
        if f.startswith('p_') and f.endswith('.py'):
            s = open(os.path.join(d, f)).read()
            res[re.search(r"^ID = '(.*)'", s, re.M).group(1)] = f[:-3]
    return res


def main():
    ms = modules()
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(ms)
    rc = 0
    for i in ids:
        mod = importlib.import_module(ms.get(i) or 'p_' + i.replace('-', '_'))
        r = framework.run_property(mod)
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
