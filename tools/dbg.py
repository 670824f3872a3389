"""debug helper: tools/dbg.py driver.cpp scenario a|e|t [n]"""
import sys, os
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/engine')
import check, interp
src, scn, mode = sys.argv[1:4]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 3
prop = sys.argv[5] if len(sys.argv) > 5 else None
_, bc, err = check.compile_driver((src, '/tmp/dbg.bc'))
if not bc: print(err[:3000]); sys.exit(2)
I = interp.Interp(check.module(bc), abstract=mode == 'a', maxmore=n, budget_time=20)
if prop: I.props = {prop}
if mode == 't':
    import threads; threads.install(I, n)
    I.abstract = False
if mode == 'f': I.abstract = False; I.fixmore = (n,)
r = I.run(scn)
print('steps', r.steps, 'paths', r.paths, 'forks', r.forks, 'headers', r.headers, 'subs', r.subsumed, 'gen', r.generalised, 'maxg', r.maxgroups, 'time %.2f' % r.time, 'ends', r.ends)
print(r.asserts, r.obligations, r.covers)
for v in r.violations:
    print('VIOL', v[0], v[1], '\n  at', v[2]); print('\n'.join('    ' + x for x in v[3][:14])); print('  trace', v[4][-30:])
for v in r.undecided[:5]:
    print('UNDEC', v[0], v[1]); print('\n'.join('    ' + x for x in v[2][:10]))
