"""debug: distinct states per header: tools/diff.py driver.cpp scenario"""
import sys
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/engine')
import check, interp
src, scn = sys.argv[1:3]
_, bc, err = check.compile_driver((src, '/tmp/dbg.bc'))
I = interp.Interp(check.module(bc), abstract=True, maxmore=3, budget_time=25, budget_steps=int(sys.argv[3]) if len(sys.argv) > 3 else 3000000)
r = I.run(scn)
print(r.steps, r.paths, r.headers, r.subsumed, r.generalised, r.weakened, len(I.seen))
ks = sorted(I.seen, key=lambda k: -len(I.seen[k]))
for k in ks[:3]:
    L = I.seen[k]; n = len(L[0])
    print(len(L), 'vectors of', n)
    for i in range(n):
        v = {repr(h[i]) for h in L}
        if len(v) > 1: print('   hole', i, sorted(v)[:12], len(v))
if len(ks) > 1:
    def diff(a, b, p=''):
        if a == b: return
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)): diff(x, y, p + '/%d' % i)
        else: print(p, repr(a)[:200], ' <> ', repr(b)[:200])
    for k in ks[1:6]: print('---'); diff(ks[0], k)
