#!/usr/bin/env python3
"""cov.py: lines of the library's headers no scenario ever reaches (development aid)."""
import sys, os, tempfile, shutil, re, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check, interp


def exec1(self, s):
    disp, r = self.disp, self.r
    c = self.cov
    while True:
        fr = s.frames[-1]
        ins = fr.f.blocks[fr.b].ins[fr.i]
        r.steps += 1
        if not (r.steps & 0xfff) and r.steps > self.budget_steps:
            raise interp.Undecided('step budget exhausted')
        h = disp.get(ins.op)
        if h is None:
            raise interp.Undecided('unsupported')
        if ins.loc:
            c.add(ins.loc)
        h(s, fr, ins)
        s.pending = (); s.npend = 0; s.nsplit = 0
        if self.thread_mode:
            s.flags['skip'] = False
        if not s.frames:
            r.paths += 1
            return


interp.Interp.exec1 = exec1
interp.Interp.cov = set()


def job(t):
    bc, src, scn, tags, opts = t
    interp.Interp.cov = set()
    I = interp.Interp(check.module(bc), abstract=False, maxmore=1, budget_steps=300000, budget_time=15, max_viol=1, root=check.REPO + '/')
    I.props = set()
    I.ignore = lambda k: True
    if 'thr' in opts:
        import threads
        threads.install(I, 0)
    if opts.get('join'):
        I.joinfuncs = {scn}
    try:
        I.run(scn)
    except Exception as e:
        pass
    return [l for l in I.cov if l[0].startswith(check.REPO)]


tmp = tempfile.mkdtemp()
try:
    ddir = os.path.join(H, 'drivers')
    srcs = [os.path.join(ddir, f) for f in sorted(os.listdir(ddir)) if f.endswith('.cpp')]
    with mp.Pool(8) as pool:
        comp = pool.map(check.compile_driver, [(s, os.path.join(tmp, os.path.basename(s) + '.bc')) for s in srcs], chunksize=1)
    tasks = [(bc, src, scn, tags, opts) for src, bc, err in comp if bc for scn, tags, opts in check.scenarios(bc)]
    check._mods.clear()
    cov = set()
    with mp.Pool(8) as pool:
        for x in pool.imap_unordered(job, tasks, chunksize=1):
            cov.update(x)
    for f in ('signals.hpp', 'optional.hpp'):
        lines = open(os.path.join(check.REPO, f)).read().splitlines()
        got = {l for p, l in cov if os.path.basename(p) == f}
        print('==', f, len(got))
        for i, l in enumerate(lines, 1):
            if i not in got and re.search(r'(;|\)|\{\})\s*$', l) and not re.match(r'\s*(//|\*|using|#|template|static_assert|typename|public|friend|return;)', l):
                print(i, l.rstrip())
finally:
    shutil.rmtree(tmp, ignore_errors=True)
