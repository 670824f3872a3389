#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only SCENARIO] [-v]

Decides one property of /repo's current working tree by abstract interpretation of the LLVM IR of the library instantiated by
the client drivers in drivers/ (nothing is executed), and by type-level witnesses in witness/.  See DESIGN.md."""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, multiprocessing as mp, argparse

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)

CXX = 'clang++-18'
CFLAGS = ['-std=gnu++17', '-gline-tables-only', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-include', os.path.join(HERE, 'shim', 'pre.hpp'),
          '-I' + os.path.join(HERE, 'shim'), '-I' + os.path.join(HERE, 'drivers'), '-I' + REPO]
LEAK_PROPS = {'C06', 'C10', 'C12', 'C13', 'C17', 'C19', 'C20', 'C23'}
RACE_PROPS = {'C09'}
FIX = [(1,), (2,), (3,), (4,), (5,), (7,), (8,), (9,), (12,), (16,), (17,), (32,), (33,), (1, 0), (0, 1), (2, 1), (1, 2), (5, 0), (0, 5), (9, 3), (3, 9),
       (17, 0), (0, 17), (17, 17)]

FIX2 = [(5,), (9,), (17,), (0, 9), (9, 0), (1, 33)]



def magic(repo):
    """Lengths at which the code may change its behaviour: every integer literal of the headers (and powers of two by shifts, and the
    wrap-around of 8-bit integers) gives the fixed lengths k-1, k, k+1 and 2k+1 for the un-widened analysis."""
    ks = set()
    for f in sorted(os.listdir(repo)):
        if not f.endswith(('.hpp', '.h', '.ipp', '.inl', '.hh', '.cpp')):
            continue
        t = open(os.path.join(repo, f), errors='replace').read()
        t = re.sub(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"', ' ', t, flags=re.S)
        t = re.sub(r'^\s*#\s*(include|if|elif|pragma|error).*$', ' ', t, flags=re.M)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?=[uUlLzZ]*\b)(?!\.)", t):
            try:
                ks.add(int(m.group(1).replace("'", ''), 0))
            except ValueError:
                pass
        for m in re.finditer(r'\b1[uUlL]*\s*<<\s*(\d+)', t):
            if int(m.group(1)) < 12:
                ks.add(1 << int(m.group(1)))
        if re.search(r'\bu?int8_t\b|\b(un)?signed char\b|\bCHAR_BIT\b|\bUCHAR_MAX\b', t):
            ks |= {128, 256}
    ks = sorted(k for k in ks if 3 <= k <= 300)
    out = []
    for k in ks[:12]:
        for n in (k, k + 1, k - 1, k + 2, 2 * k + 1):
            if n not in out and 3 < n <= 320:
                out.append(n)
    return out[:40]


MAGIC = magic(REPO)
ORDER = ['types', 'two', 'long', 'list', 'scoped', 'move', 'slot', 'call', 'opt', 'opt2', 'kinds', 'cow', 'comb', 'args', 'equal', 'emit', 'track', 'exc', 'off', 'hist', 'thr2', 'thr', 'reent']
SLOW = mp.Value('i', 0)      # scenarios whose summary analysis ran out of its budget: give the later ones less
LIMIT = dict(quick=600, thorough=7200)
_mods = {}
ARGS = None


def compile_driver(job):
    src, out = job[:2]
    bc0 = out + '.0.bc'
    p = subprocess.run([CXX] + CFLAGS + list(job[2:]) + ['-c', '-emit-llvm', src, '-o', bc0], capture_output=True, text=True)
    if p.returncode:
        return src, None, p.stderr
    p = subprocess.run(['opt-18', '-passes=function(sroa)', bc0, '-o', out], capture_output=True, text=True)
    os.unlink(bc0)
    if p.returncode:
        return src, None, p.stderr
    return src, out, ''


def scenarios(bc):
    import llvmc
    m = module(bc)
    out = []
    for g in m.gv:
        if g.startswith('vf_meta_'):
            size, cells, _ = m.global_init(g)
            txt = ''.join(chr(v) for o, sz, v in sorted(cells) if type(v) is int and v)
            tags, _, opts = txt.partition('|')
            out.append((g[8:], set(tags.split()), dict(x.split('=') for x in opts.split())))
    return sorted(out)


def module(bc):
    if bc not in _mods:
        import llvmc
        _mods[bc] = llvmc.Module(bc)
    return _mods[bc]


def counts(kind, prop, tags):
    if kind == 'leak':
        return prop in LEAK_PROPS or prop == 'C24' and bool(tags & LEAK_PROPS)
    if kind == 'data-race':
        return prop in RACE_PROPS
    return True


def summary(r, props, prop, mode):
    viol = [v for v in r.violations if counts(v[0], prop, props)]
    return dict(mode=mode, violations=viol, undecided=r.undecided, steps=r.steps, paths=r.paths, forks=r.forks,
                funcs=sorted(r.funcs), headers=r.headers, subsumed=r.subsumed, generalised=r.generalised, maxgroups=r.maxgroups,
                asserts=r.asserts, obligations=r.obligations, covers=r.covers, ends=r.ends, more=r.more, weakened=r.weakened, time=round(r.time, 3))


def run_one(bc, scn, tags, opts, prop, abstract, maxmore, steps, secs, fixmore=None, thr=None):
    import interp
    I = interp.Interp(module(bc), abstract=abstract, maxmore=maxmore, budget_steps=steps, budget_time=secs, max_viol=1, root=REPO + '/')
    I.props = {prop} if prop != 'C24' else None
    I.fixmore = fixmore
    I.ignore = lambda kind: not counts(kind, prop, tags)
    if thr is not None:
        import threads
        threads.install(I, None if thr == 'full' else thr)
        if prop not in RACE_PROPS:
            I.races = False
    if opts.get('join'):
        I.joinfuncs = {scn}
    try:
        r = I.run(scn)
    except interp.Undecided as e:
        I.r.undecided.append((str(e), '', []))
        r = I.r
    return summary(r, tags, prop, 'abstract' if abstract else 'threads' if thr is not None else 'fixed%s' % (fixmore,) if fixmore else 'bounded%d' % maxmore)


def run_cfg(task):
    """C24: the scenario in another configuration of the compiler; a violation counts if the default configuration has none."""
    bc, src, scn, tags, opts, prop, tier, cfg, bcdef = task
    t0 = time.time()
    thorough = tier == 'thorough'
    out = dict(scn='%s (%s)' % (scn, cfg), src=os.path.basename(src), runs=[], verdict=None, tags=sorted(tags))
    n = min(int(opts.get('more', '3')), 3 if thorough else 2)
    steps, secs = (4000000, 60) if thorough else (500000, 6)
    if bc == bcdef:
        return fin(dict(out, verdict='held'), t0)
    try:
        r = None
        if 'thr' in opts:
            r = run_one(bc, scn, tags, opts, prop, False, 3, 4 * steps, 5 * secs, thr=1)
            out['runs'].append(r)
            out['scope'] = 'interleavings with at most one preemption, configuration ' + cfg
        elif opts.get('abs', '1') == '1':
            r = run_one(bc, scn, tags, opts, prop, True, 0, 4 * steps, 3 * secs)
            out['runs'].append(r)
            out['scope'] = 'every path, length and history, configuration ' + cfg
        if 'thr' not in opts and (r is None or r['violations'] or r['undecided']):
            r = run_one(bc, scn, tags, opts, prop, False, n, 2 * steps, 2 * secs)
            out['runs'].append(r)
            out['scope'] = 'lists and histories of at most %d elements, configuration %s' % (n, cfg)
        out['verdict'] = 'violated' if r['violations'] else 'undecided' if r['undecided'] else 'held'
        if r['violations']:
            d = run_one(bcdef, scn, tags, opts, prop, False, 3 if 'thr' in opts else n, 4 * steps, 4 * secs, thr=1 if 'thr' in opts else None)
            if d['violations'] or d['undecided']:
                # not a matter of the configuration: it is the other property that is broken
                out['verdict'] = 'undecided'
                out['runs'] = [dict(r, violations=[], undecided=[('also fails in the default configuration', '', [])])]
    except Exception as e:
        import traceback
        out['verdict'] = 'error'
        out['error'] = traceback.format_exc()[-1500:]
    return fin(out, t0)


def run_any(task):
    return run_cfg(task) if len(task) > 7 else run_scn(task)


def run_scn(task):
    bc, src, scn, tags, opts, prop, tier = task
    t0 = time.time()
    thorough = tier == 'thorough'
    out = dict(scn=scn, src=os.path.basename(src), runs=[], verdict=None, tags=sorted(tags))
    steps, secs = (80000000, 600) if thorough else (20000000, 90)
    try:
        if 'thr' in opts:
            k = int(opts['thr']) + (1 if thorough else 0)
            few = opts.get('few') and not thorough      # threads sharing nothing: races need no particular interleaving
            if not few:
                r = run_one(bc, scn, tags, opts, prop, False, 3, steps, secs, thr='full')
                out['runs'].append(r)
                out['scope'] = 'every interleaving (fixpoint over all reachable states)'
            if few or r['undecided'] and not r['violations']:
                r = run_one(bc, scn, tags, opts, prop, False, 3, steps, secs, thr=k)
                out['runs'].append(r)
                out['scope'] = 'all interleavings with at most %d preemptions' % k
            out['verdict'] = 'violated' if r['violations'] else 'undecided' if r['undecided'] else 'held'
            return fin(out, t0)
        n = int(opts.get('more', '3')) + (1 if thorough else 0)
        ra = None
        if opts.get('abs', '1') == '1' or opts.get('abs') == 't' and thorough:
            ra = run_one(bc, scn, tags, opts, prop, True, 0, steps, secs if thorough else 60 if SLOW.value < 8 else 12)
            if ra['undecided'] and not thorough:
                with SLOW.get_lock():
                    SLOW.value += 1
            out['runs'].append(ra)
            if not ra['generalised'] and not ra['weakened'] and not ra['undecided']:
                # nothing was widened: the reachable abstract states are exactly the reachable ones
                if ra['violations'] or not thorough:
                    out['verdict'] = 'violated' if ra['violations'] else 'held'
                    out['scope'] = 'every path' if not ra['more'] else 'every history (fixpoint over all reachable states)'
                    return fin(out, t0)
        need = ra is None or ra['violations'] or ra['undecided']
        re_ = run_one(bc, scn, tags, opts, prop, False, n, steps, secs if thorough or SLOW.value < 8 else 30)
        out['runs'].append(re_)
        if re_['violations']:
            out['verdict'] = 'violated'
            return fin(out, t0)
        if need and re_['more'] and (not re_['undecided'] or MAGIC) and opts.get('fix') != '0':
            # not decided for every length by the summary domain: also look at selected longer lists
            t1 = time.time()
            alarm = ra is not None and ra['violations']
            mg = [(n,) for n in MAGIC] + [x for n in MAGIC for x in ((0, n), (n, 0), (1, n), (n, 1))]
            for fx in mg + (FIX if alarm else FIX2):
                r = run_one(bc, scn, tags, opts, prop, False, 0, 3000000 if MAGIC else 600000, 20 if MAGIC else 10, fixmore=fx)
                out['runs'].append(r)
                if r['violations']:
                    out['verdict'] = 'violated'
                    return fin(out, t0)
                if time.time() - t1 > (200 if thorough else 15 if SLOW.value >= 8 else (60 if MAGIC else 40) if alarm else (40 if MAGIC else 20)):
                    break
            if alarm:
                out['verdict'] = 'unconfirmed'
                out['scope'] = 'lists of at most %d elements and selected longer ones (an alarm of the summary domain was not confirmed by any of them)' % n
                return fin(out, t0)
        if not need:
            out['verdict'] = 'held'
            out['scope'] = 'lists of every length' if ra['headers'] and ra['generalised'] else 'every path'
        elif re_['undecided']:
            out['verdict'] = 'undecided'
        else:
            out['verdict'] = 'held'
            out['scope'] = 'lists of at most %d elements' % n
        return fin(out, t0)
    except Exception as e:
        import traceback
        out['verdict'] = 'error'
        out['error'] = traceback.format_exc()[-1500:]
        return fin(out, t0)


def fin(out, t0):
    out['time'] = round(time.time() - t0, 2)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--full', action='store_true', help='do not stop soon after the first violation')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vf.')
    try:
        rc = decide(a, prop, tier, tmp, outdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(a, prop, tier, tmp, outdir, t0):
    ddir = os.path.join(HERE, 'drivers')
    srcs = []
    for f in sorted(os.listdir(ddir)):
        if f.endswith('.cpp') and (prop == 'C24' or re.search(r'\b%s\b' % prop, open(os.path.join(ddir, f)).read())):
            srcs.append(os.path.join(ddir, f))
    ctx = mp.get_context('fork')
    errors, viol, results = [], [], []
    wres = dict(checked=0, violations=[], errors=[], samples=[])
    import witness, header
    if prop == 'C24':
        defs, hv, he = header.check(REPO, tmp, CXX)
        wres['checked'] += len(defs)
        wres['violations'] += hv
        wres['errors'] += he
        wres['samples'] += [dict(definition=d[1], kind=d[0], site='%s:%d' % d[2:4], linkage=d[4]) for d in defs[:4]]
    with ctx.Pool(a.j) as pool:
        comp = pool.map(compile_driver, [(s, os.path.join(tmp, os.path.basename(s) + '.bc')) for s in srcs], chunksize=1)
        tasks = []
        if prop == 'C24':
            cfgs = [(s, os.path.join(tmp, '%s.%d.bc' % (os.path.basename(s), k)), *fl) for s in srcs for k, (nm, fl) in enumerate(header.CONFIGS)]
            okdef = {s: b for s, b, e in comp}
            for (src, bc, err), job in zip(pool.map(compile_driver, cfgs, chunksize=1), cfgs):
                nm = header.CONFIGS[int(job[1].split('.')[-2])][0]
                if okdef[src] is None:
                    continue
                if bc is None and not witness.judged(err):
                    errors.append('no verdict of the compiler on %s as %s: %s' % (os.path.basename(src), nm, err[:300]))
                    continue
                wres['checked'] += 1
                if bc is None:
                    wres['violations'].append(dict(name='client-%s-%s' % (os.path.basename(src)[2:-4], nm.replace(' ', '-')), rule='valid uses do not compile in the configuration %s' % nm, detail=err[:3000]))
                    continue
                for scn, tags, opts in scenarios(bc):
                    if ('thr' not in opts or nm == header.CONFIGS[0][0]) and opts.get('tier') != 'thorough' and (not a.only or re.search(a.only, scn)):
                        tasks.append((bc, src, scn, tags, opts, prop, tier, nm, okdef[src]))
            comp = [c for c in comp if c[1] is None]
    for src, bc, err in comp:
        if bc is None:
            errors.append('%s does not compile against the current tree:\n%s' % (os.path.basename(src), err[:1500]))
            continue
        for scn, tags, opts in scenarios(bc):
            if prop in tags and (not a.only or re.search(a.only, scn)) and not (opts.get('tier') == 'thorough' and tier == 'quick'):
                tasks.append((bc, src, scn, tags, opts, prop, tier))
    tasks.sort(key=lambda t: ORDER.index(os.path.basename(t[1])[2:-4]) if os.path.basename(t[1])[2:-4] in ORDER else 99)
    _mods.clear()
    with ctx.Pool(a.j) as pool:
        it = pool.imap_unordered(run_any, tasks, chunksize=1)
        end = t0 + (LIMIT[tier] if not a.v else 100000)
        while True:
            try:
                r = it.next(max(0.1, end - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                break
            results.append(r)
            if r['verdict'] == 'violated' and not a.v and not a.full:
                end = min(end, time.time() + 15)      # the verdict is clear; report what else is found soon
            if a.v:
                print('  %-34s %-10s %6.1fs  %s' % (r['scn'], r['verdict'], r['time'], ' '.join('%s:%d/%dp%s' % (x['mode'], x['steps'], x['paths'], '!' if x['violations'] else '?' if x['undecided'] else '') for x in r['runs'])))
                sys.stdout.flush()
    name = lambda t: t[2] if len(t) < 8 else '%s (%s)' % (t[2], t[7])
    done = {r['scn'] for r in results}
    skipped = [name(t) for t in tasks if name(t) not in done]
    if skipped and not any(r['verdict'] == 'violated' for r in results):
        for t in tasks:
            if name(t) in skipped:
                results.append(dict(scn=name(t), src=os.path.basename(t[1]), runs=[dict(undecided=[('not analysed within the time limit', '', [])], violations=[], mode='none', steps=0, paths=0, forks=0, funcs=[], headers=0,
                               subsumed=0, generalised=0, maxgroups=0, asserts={}, obligations={}, covers={}, ends=0, more=0, weakened=0, time=0)], verdict='undecided', tags=sorted(t[3]), time=0))
    w2 = witness.run(prop, REPO, HERE, tmp, a.j)
    for k in ('violations', 'errors', 'samples'):
        wres[k] += w2[k]
    wres['checked'] += w2['checked']
    errors += wres['errors']

    # ---------------------------------------------------------------- verdict
    results.sort(key=lambda r: r['scn'])
    nviol = 0
    known = known_findings(prop)
    lines = []
    for r in results:
        if r['verdict'] == 'error':     # the analyser met something it cannot handle: no verdict on this scenario
            r['runs'].append(dict(undecided=[('the analyser failed: ' + r['error'].strip().splitlines()[-1], '', [])], violations=[], mode='error', steps=0, paths=0, forks=0, funcs=[], headers=0,
                                  subsumed=0, generalised=0, maxgroups=0, asserts={}, obligations={}, covers={}, ends=0, more=0, weakened=0, time=0))
            r['verdict'] = 'undecided'
            if a.v:
                print(r['error'])
        if r['verdict'] == 'violated':
            v = [x for x in r['runs'] if x['violations']][-1]
            kind, msg, site, stack, trace = v['violations'][0]
            if r['runs'][0]['mode'] == 'abstract' and r['runs'][0]['violations'] and not site.startswith(REPO):
                pass
            k = [x for x in known if x['scn'] == r['scn'] and x['label'] == msg]
            if k:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
                continue
            nviol += 1
            path = os.path.join(outdir, '%s-%s.txt' % (prop, re.sub(r'[^\w.+-]+', '_', r['scn'])))
            with open(path, 'w') as f:
                f.write('property   %s\nscenario   %s (%s)\nanalysis   %s\nrule       %s\nfinding    %s\nconstruct  %s\n\ncall path (innermost first):\n' % (
                    prop, r['scn'], r['src'], v['mode'], kind, msg, site))
                f.write(''.join('  ' + x + '\n' for x in stack))
                f.write('\nabstract path:\n' + ''.join('  ' + x + '\n' for x in trace))
                f.write('\nre-run: ./check.py %s --only %s -v\n' % (prop, r['scn']))
            lines.append('%s: %s [%s] at %s' % (r['scn'], msg, kind, site))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    for w in wres['violations']:
        nviol += 1
        path = os.path.join(outdir, '%s-%s.txt' % (prop, w['name']))
        open(path, 'w').write('property   %s\nwitness    %s\nrule       %s\n\n%s\n' % (prop, w['name'], w['rule'], w['detail']))
        lines.append('%s: %s' % (w['name'], w['rule']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))

    vac = [r['scn'] for r in results if r['verdict'] in ('held', 'unconfirmed') and not any(x['ends'] for x in r['runs'])]
    if vac:
        errors.append('scenarios that never reach their end (vacuous): %s' % vac)
    und = [r for r in results if r['verdict'] == 'undecided']
    if results and len(und) == len(results) and not wres['checked']:
        errors.append('no scenario could be decided')
    if not results and not wres['checked']:
        errors.append('nothing was analysed')
    evidence(prop, tier, results, wres, nviol, errors, time.time() - t0)
    for l in lines:
        print(l)
    for r in und:
        print('undecided: %s: %s' % (r['scn'], [u[:2] for x in r['runs'] for u in x['undecided']][:2]))
    for r in results:
        if r['verdict'] == 'unconfirmed':
            v = r['runs'][0]['violations'][0]
            print('unconfirmed alarm (not reported as a violation): %s: %s at %s' % (r['scn'], v[1], v[2]))
    held = sum(1 for r in results if r['verdict'] == 'held')
    print('%s: %d scenarios (%d held, %d undecided), %d witnesses, %d violations, %.1f s' % (prop, len(results), held, len(und), wres['checked'], nviol, time.time() - t0))
    if nviol:
        return 1
    for e in errors:
        print('ERROR: ' + e)
    if errors and held == 0 and not wres['checked']:
        return 2
    return 0


def known_findings(prop):
    p = os.path.join(HERE, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


def evidence(prop, tier, results, wres, nviol, errors, wall):
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'))) if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else {'checks': []}
    lvl = 'other'
    funcs = set()
    ob = {}
    asserts = {}
    for r in results:
        for x in r['runs']:
            funcs.update(x['funcs'])
            for k, n in x['obligations'].items():
                ob[k] = ob.get(k, 0) + n
            for k, n in x['asserts'].items():
                asserts[k] = asserts.get(k, 0) + n
    from llvmc import demangle
    lib = sorted({demangle(f)[:140] for f in funcs if 'sig' in f or '3opt' in f})
    libm = [f for f in lib if re.search(r'\b(sig|opt)::', f)]
    cov = dict(
        explanation='Abstract interpretation of the LLVM IR of the library (instantiated by client drivers) and type-level witnesses; '
                    'each scenario is analysed over all its paths, list lengths and inputs as stated under "scope".',
        rule='an obligation (driver assertion "Cxx|...", or a generic rule: memory safety, lock discipline, leak, uninitialised use, termination of noexcept) is '
             'discharged when no abstract path reaches a state violating it',
        scenarios=len(results),
        scenarios_held=sum(1 for r in results if r['verdict'] == 'held'),
        scenarios_any_length=sum(1 for r in results if r.get('scope') == 'lists of every length'),
        scenarios_all_paths=sum(1 for r in results if (r.get('scope') or '').startswith('every')),
        scenarios_bounded=sum(1 for r in results if r['verdict'] == 'held' and 'at most' in (r.get('scope') or '')),
        undecided=[dict(scenario=r['scn'], why=[u[0] for x in r['runs'] for u in x['undecided']][:3]) for r in results if r['verdict'] == 'undecided'],
        unconfirmed=[r['scn'] for r in results if r['verdict'] == 'unconfirmed'],
        library_functions_analysed=len(libm),
        functions_analysed=len(funcs),
        ir_instructions_interpreted=sum(x['steps'] for r in results for x in r['runs']),
        abstract_paths=sum(x['paths'] for r in results for x in r['runs']),
        case_splits=sum(x['forks'] for r in results for x in r['runs']),
        loop_header_visits=sum(x['headers'] for r in results for x in r['runs']),
        states_subsumed_at_loop_headers=sum(x['subsumed'] for r in results for x in r['runs']),
        obligations_by_rule=ob,
        obligations=sum(ob.values()),
        distinct_assertions=len(asserts),
        witnesses=wres['checked'],
        samples=[dict(scenario=r['scn'], driver=r['src'], verdict=r['verdict'], scope=r.get('scope'),
                      runs=[dict(mode=x['mode'], steps=x['steps'], paths=x['paths'], assertions=x['asserts']) for x in r['runs']]) for r in results[:6]]
        + wres['samples'][:6],
        library_functions=libm[:60],
        errors=[e[:300] for e in errors])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=lvl, coverage=cov,
              assumptions=['clang 18 -std=gnu++17 front end; libstdc++ headers except std::vector, which is replaced by shim/vector (same interface, same iterator invalidation)',
                           'models of operator new/delete, pthread mutexes, exception runtime and dynamic_cast in engine/models.py',
                           'clients behave as the drivers in drivers/ allow (see DESIGN.md)'],
              wall_s=round(wall, 2), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
