#!/usr/bin/env python3
"""all.py REPO [-j N] [--all]: run every scenario once for all properties against REPO; stop at the first violation (development aid:
used on scratch copies with planted changes; not a registered check)."""
import sys, os, time, argparse, tempfile, shutil, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('repo'); ap.add_argument('-j', type=int, default=8); ap.add_argument('--all', action='store_true'); ap.add_argument('--drv', default=''); ap.add_argument('-v', action='store_true'); ap.add_argument('--fast', action='store_true'); ap.add_argument('--base'); ap.add_argument('--mkbase')
a = ap.parse_args()
os.environ['VERIF_REPO'] = os.path.abspath(a.repo)
sys.path.insert(0, H)
import check, witness
SLOWSET = {'thr_emit_emit_dis', 're_connect', 're_throw', 're_block', 'thr_emit_conn_dis', 'eq_remove', 're_nested', 're_unblock', 're_destroy', 'block_move'}
ALL = {'C%02d' % i for i in range(1, 24)}


def run_one(bc, scn, tags, opts, prop, abstract, maxmore, steps, secs, fixmore=None, thr=None):
    import interp
    I = interp.Interp(check.module(bc), abstract=abstract, maxmore=maxmore, budget_steps=steps, budget_time=secs, max_viol=1, root=check.REPO + '/')
    I.props = set(tags)
    I.fixmore = fixmore
    ok = lambda kind: kind == 'leak' and not (tags & check.LEAK_PROPS) or kind == 'data-race' and not (tags & check.RACE_PROPS)
    I.ignore = ok
    if thr is not None:
        import threads
        threads.install(I, None if thr == 'full' else thr)
        if not tags & check.RACE_PROPS:
            I.races = False
    if opts.get('join'):
        I.joinfuncs = {scn}
    try:
        r = I.run(scn)
    except interp.Undecided as e:
        I.r.undecided.append((str(e), '', []))
        r = I.r
    s = check.summary(r, tags, 'C23', 'abstract' if abstract else 'threads' if thr is not None else 'fixed%s' % (fixmore,) if fixmore else 'bounded%d' % maxmore)
    s['violations'] = [v for v in r.violations if not ok(v[0])]
    return s


check.run_one = run_one


def main():
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vfall.')
    try:
        ddir = os.path.join(H, 'drivers')
        srcs = [os.path.join(ddir, f) for f in sorted(os.listdir(ddir)) if f.endswith('.cpp') and a.drv in f]
        ctx = mp.get_context('fork')
        with ctx.Pool(a.j) as pool:
            comp = pool.map(check.compile_driver, [(s, os.path.join(tmp, os.path.basename(s) + '.bc')) for s in srcs], chunksize=1)
        tasks = []
        base = {}
        if a.base or a.mkbase:
            import irhash, json
            if a.base:
                base = json.load(open(a.base))
            todo = []
            for src, bc, err in comp:
                if bc is not None:
                    todo.append((bc, [x[0] for x in check.scenarios(bc)]))
            with ctx.Pool(a.j) as pool:
                hs = {}
                for x in pool.starmap(irhash.scns, todo, chunksize=1):
                    hs.update(x)
            if a.mkbase:
                json.dump(hs, open(a.mkbase, 'w'))
                return
        for src, bc, err in comp:
            if bc is None:
                print('NOCOMPILE %s: %s' % (os.path.basename(src), err.strip().splitlines()[0][:200] if err.strip() else ''))
                continue
            for scn, tags, opts in check.scenarios(bc):
                if opts.get('tier') != 'thorough' and not (a.fast and scn in SLOWSET) and (not base or base.get(scn) != hs[scn]):
                    tasks.append((bc, src, scn, tags, opts, 'ALL', 'quick'))
        tasks.sort(key=lambda t: check.ORDER.index(os.path.basename(t[1])[2:-4]) if os.path.basename(t[1])[2:-4] in check.ORDER else 99)
        check._mods.clear()
        n = 0
        if base:
            print('%d scenarios affected' % len(tasks))
        if not n or a.all:
            # cheap ones first
            with ctx.Pool(a.j) as pool:
                for r in pool.imap_unordered(check.run_scn, tasks, chunksize=1):
                    if a.v:
                        print('  ', r['scn'], r['verdict'], r['time'])
                    if r['verdict'] == 'violated':
                        v = [x for x in r['runs'] if x['violations']][-1]['violations'][0]
                        print('CAUGHT %s: %s: %s at %s [%s]' % (r['scn'], v[0], v[1], v[2], ' '.join(r['tags'])))
                        n += 1
                        if not a.all:
                            pool.terminate()
                            break
                    elif r['verdict'] in ('undecided', 'unconfirmed', 'error'):
                        print('  %s %s %s' % (r['verdict'], r['scn'], [u[:2] for x in r['runs'] for u in x['undecided']][:2] or r.get('error', '')[-300:] or r['runs'][0]['violations'][0][:3]))
        if not n or a.all:
            wr = witness.run('C22', check.REPO, H, tmp, a.j)
            w2 = witness.run('C24', check.REPO, H, tmp, a.j)
            import header
            hd, hv, he = header.check(check.REPO, tmp, check.CXX)
            wr['violations'] += w2['violations'] + hv
            wr['errors'] += w2['errors'] + he
            for w in wr['violations']:
                n += 1
                print('CAUGHT witness %s' % w['name'])
            for e in wr['errors']:
                print('WERR', e[:200])
        print('%s %d %.0fs' % ('CAUGHT' if n else 'SURVIVED', n, time.time() - t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
