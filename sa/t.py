import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from program import *; from core import *
import extract
mirs, info = extract.extract('server' if '--server' in sys.argv else 'engine')
P = Program(extract.REPO, mirs)
pat = sys.argv[1]
for f in P.find(pat):
    if '{closure' in f.key and 'closure' not in pat: continue
    t = time.time()
    A = Analysis(P)
    g = A.run(f)
    print('==', f.key, len(g.nodes), len(g.reach), '%.2fs' % (time.time() - t), len(A.inlined_fns))
    if 'v' in sys.argv[2:]:
        for n in g.events('write', 'call', 'index', 'ret', 'panic', 'arith', 'branch', 'enter'):
            print(n, '->', [(m.id, [(show(x), y) for x, y in c]) for m, c in n.succ])
