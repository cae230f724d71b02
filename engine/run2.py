import sys, json, time
sys.setrecursionlimit(10000)
from absint import *
import driver
d = json.load(open('/tmp/md/probe.json'))
p = Prog(d)
pat = sys.argv[1]; kind=sys.argv[2]; b=int(sys.argv[3])
for r in sorted(p.roots):
    if pat in r:
        t=time.time()
        D = driver.make(p, kind, b)
        D.run(r)
        print('%-45s states %5d exits %4d claims %s issues %d  %.1fs' % (r, D.n, D.exits, dict(D.spec.claims), len(D.eng.issues), time.time()-t))
        for i in D.eng.issues[:5]: print('   ', i[0], i[2][:600])
