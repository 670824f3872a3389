"""Type-level witnesses: translation units in witness/ decided by the compiler's type checker alone (-fsyntax-only).

witness/*.cpp holds sections   //// Cxx accept NAME    and   //// Cxx reject NAME
An accept section must compile (its static_asserts hold); a reject section must not."""
import os, re, subprocess, multiprocessing as mp


def sections(path):
    pre, cur, out = [], None, []
    for l in open(path):
        m = re.match(r'////\s+(C\d\d)\s+(accept|reject)\s+(\S+)', l)
        if m:
            cur = dict(prop=m.group(1), kind=m.group(2), name=m.group(3), body=[])
            out.append(cur)
        elif cur is None:
            pre.append(l)
        else:
            cur['body'].append(l)
    return ''.join(pre), out


def job(x):
    cc, flags, text, tmp, name = x
    p = os.path.join(tmp, name + '.cpp')
    open(p, 'w').write(text)
    for i in range(3):
        r = subprocess.run([cc] + flags + ['-fsyntax-only', p], capture_output=True, text=True)
        if r.returncode == 0 or judged(r.stderr):
            return r.returncode, r.stderr
    return None, r.stderr       # the compiler did not give a verdict (killed, out of space)


def judged(err):
    return any(re.search(r':\d+:\d+: (fatal )?error: ', l) for l in err.splitlines()) and 'No space left' not in err and 'ANNOT_ALLOCATE' not in err


CONF = [('clang++-18', '-std=c++11'), ('clang++-18', '-std=c++14'), ('clang++-18', '-std=c++17'), ('clang++-18', '-std=c++20'), ('g++', '-std=c++11'), ('g++', '-std=c++17'), ('g++', '-std=c++20')]


def matrix(todo, repo, tmp, j, res):
    """every section with every compiler and language standard"""
    jobs = [(f, pre, s, cc, std, nd) for f, pre, s in todo for cc, std in CONF for nd in (([], ['-DNDEBUG']) if std == '-std=c++11' and cc[0] == 'c' else ([],))]
    with mp.get_context('fork').Pool(j) as pool:
        out = pool.map(job, [(cc, [std, '-w', '-I' + repo] + nd, pre + '\n' + ''.join(s['body']), tmp, 'w%d' % i) for i, (f, pre, s, cc, std, nd) in enumerate(jobs)], chunksize=1)
    for (f, pre, s, cc, std, nd), (rc, err) in zip(jobs, out):
        if rc is None:
            res['errors'].append('no verdict of the compiler on %s: %s' % (s['name'], err[:300]))
            continue
        res['checked'] += 1
        if len(res['samples']) < 8:
            res['samples'].append(dict(witness=s['name'], kind=s['kind'], file=f, compiler=cc, standard=std, compiles=rc == 0))
        if (s['kind'] == 'accept') == bool(rc) and not any(v['name'].startswith(s['name'] + '-') for v in res['violations']):
            res['violations'].append(dict(name='%s-%s%s' % (s['name'], cc.replace('+', 'p'), std.replace('+', 'p')), rule='%s with %s %s: %s' % ('a valid use does not compile' if rc else 'an unsafe use is accepted', cc, std, s['name']),
                                          detail=''.join(s['body']) + '\n' + err[:3000]))
    return res


def run(prop, repo, here, tmp, j):
    res = dict(checked=0, violations=[], errors=[], samples=[])
    wd = os.path.join(here, 'witness')
    todo = []
    if not os.path.isdir(wd):
        return res
    for f in sorted(os.listdir(wd)):
        if not f.endswith('.cpp'):
            continue
        pre, secs = sections(os.path.join(wd, f))
        for s in secs:
            if s['prop'] == prop:
                todo.append((f, pre, s))
    if prop == 'C22':
        # the clients in drivers/ that keep to the public interface are valid uses
        dd = os.path.join(here, 'drivers')
        for f in sorted(os.listdir(dd)):
            text = open(os.path.join(dd, f)).read()
            if f.endswith('.cpp') and 'detail::' not in text:
                todo.append((f, '', dict(prop=prop, kind='accept', name='client-' + f[2:-4], body=['#include "%s"\n' % os.path.join(dd, f)])))
    if not todo:
        return res
    if prop == 'C24':
        return matrix(todo, repo, tmp, j, res)
    flags = ['-std=gnu++17', '-w', '-ferror-limit=5', '-I' + repo, '-I' + os.path.join(here, 'drivers')]
    # the library itself must parse, otherwise nothing is decided
    rc, err = job(('clang++-18', flags, '#include "signals.hpp"\n', tmp, 'w_base'))
    if rc != 0:
        res['errors'].append('the headers do not compile: ' + err[:800])
        return res
    with mp.get_context('fork').Pool(j) as pool:
        out = pool.map(job, [('clang++-18', flags, pre + '\n' + ''.join(s['body']), tmp, 'w%d' % i) for i, (f, pre, s) in enumerate(todo)], chunksize=1)
    for (f, pre, s), (rc, err) in zip(todo, out):
        if rc is None:
            res['errors'].append('no verdict of the compiler on %s: %s' % (s['name'], err[:300]))
            continue
        res['checked'] += 1
        if len(res['samples']) < 12:
            res['samples'].append(dict(witness=s['name'], kind=s['kind'], file=f, compiles=rc == 0))
        if s['kind'] == 'accept' and rc:
            res['violations'].append(dict(name=s['name'], rule='a valid use is no longer accepted: %s' % s['name'], detail=''.join(s['body']) + '\n' + err[:3000]))
        if s['kind'] == 'reject' and not rc:
            res['violations'].append(dict(name=s['name'], rule='an ill-typed or unsafe use is accepted: %s' % s['name'], detail=''.join(s['body'])))
    return res
