import sys, json, time
sys.setrecursionlimit(10000)
from absint import *
import trees, driver
d = json.load(open(__import__('os').environ.get('MD','/tmp/md')+'/probe.json'))
p = Prog(d)
pat = sys.argv[1]; b=int(sys.argv[2]); prop=None
if len(sys.argv)>3 and sys.argv[3].startswith('C'): prop=sys.argv.pop(3)
dbg=len(sys.argv)>3
for r in sorted(p.roots):
    if pat in r:
        t=time.time()
        D = trees.make(p, r, b, prop)
        D.debug=dbg
        D.run(r)
        print('%-45s states %5d cells %d joins %d exits %4d claims %s issues %d  %.1fs' % (r, D.n, sum(len(c.cells) for c in D.contexts), D.joins, D.exits, dict(D.spec.claims), len(D.eng.issues), time.time()-t))
        for i in D.eng.issues[:5]: print('   ', i[0], i[2][:900])
