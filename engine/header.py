"""C24: the headers as seen by the program that includes them.

definitions(): every function and variable the headers define at namespace scope, from the debug information of a translation
unit that only includes them.  A definition with strong linkage collides when a second translation unit includes the header;
a mutable variable with internal linkage exists once per translation unit although the inline functions using it are one."""
import os, re, subprocess

STDS = ['c++11', 'c++14', 'c++17', 'c++20']
WEAK = {'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'available_externally', 'internal', 'private', 'extern_weak', 'common'}
CONFIGS = [('c++11 NDEBUG', ['-std=c++11', '-DNDEBUG']), ('c++14', ['-std=c++14']), ('c++20 NDEBUG', ['-std=c++20', '-DNDEBUG'])]


def meta(text):
    return {m.group(1): m.group(2) for m in re.finditer(r'^!(\d+) = (?:distinct )?(.*)$', text, re.M)}


def where(md, n):
    """(file, line, name) of a DISubprogram / DIGlobalVariableExpression"""
    d = md.get(n, '')
    m = re.match(r'!DIGlobalVariableExpression\(var: !(\d+)', d)
    if m:
        d = md.get(m.group(1), '')
    f = re.search(r'\bfile: !(\d+)', d)
    l = re.search(r'\bline: (\d+)', d)
    nm = re.search(r'\bname: "([^"]*)"', d)
    fn = ''
    if f:
        g = md.get(f.group(1), '')
        a, b = re.search(r'filename: "([^"]*)"', g), re.search(r'directory: "([^"]*)"', g)
        fn = os.path.normpath(os.path.join(b.group(1) if b else '', a.group(1) if a else ''))
    return fn, int(l.group(1)) if l else 0, nm.group(1) if nm else ''


def definitions(repo, tmp, cxx):
    """[(kind, name, file, line, linkage, mutable)] defined by the headers of repo"""
    out, errs = [], []
    repo = os.path.realpath(repo)
    hdr = sorted(f for f in os.listdir(repo) if f.endswith(('.hpp', '.h', '.hh')))
    for std in ('c++11', 'c++17'):
        src = os.path.join(tmp, 'odr.cpp')
        open(src, 'w').write(''.join('#include "%s"\n' % os.path.join(repo, h) for h in hdr))
        r = subprocess.run([cxx, '-std=' + std, '-w', '-g', '-fstandalone-debug', '-O0', '-S', '-emit-llvm', '-femit-all-decls', src, '-o', '-'], capture_output=True, text=True)
        if r.returncode:
            errs.append('the headers do not compile as %s:\n%s' % (std, r.stderr[:800]))
            continue
        md = meta(r.stdout)
        for m in re.finditer(r'^define (.*?)@("[^"]+"|[\w.$]+)\(.*?!dbg !(\d+)', r.stdout, re.M):
            fn, ln, nm = where(md, m.group(3))
            if os.path.realpath(fn).startswith(repo + '/'):
                lk = [w for w in m.group(1).split() if w in WEAK]
                out.append(('function', nm, fn, ln, lk[0] if lk else 'external', False, std))
        for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = (.*?)\b(global|constant)\b.*?!dbg !(\d+)', r.stdout, re.M):
            fn, ln, nm = where(md, m.group(4))
            if os.path.realpath(fn).startswith(repo + '/'):
                lk = [w for w in m.group(2).split() if w in WEAK]
                if re.search(r'\bexternal\b', m.group(2)):
                    continue
                out.append(('variable', nm, fn, ln, lk[0] if lk else 'external', m.group(3) == 'global', std))
    return out, errs


def check(repo, tmp, cxx):
    defs, errs = definitions(repo, tmp, cxx)
    viol, seen = [], set()
    for kind, nm, fn, ln, lk, mut, std in defs:
        if (kind, nm, ln) in seen:
            continue
        site = '%s:%d' % (fn, ln)
        if lk == 'external':
            seen.add((kind, nm, ln))
            viol.append(dict(name='odr-%s' % re.sub(r'\W', '_', nm), rule='a %s defined in a header has strong external linkage: two translation units that include it do not link: %s at %s' % (kind, nm, site),
                             detail='%s %s\nconstruct  %s\nlinkage    %s (-std=%s)\n' % (kind, nm, site, lk, std)))
        elif kind == 'variable' and lk in ('internal', 'private') and mut:
            seen.add((kind, nm, ln))
            viol.append(dict(name='odr-%s' % re.sub(r'\W', '_', nm), rule='a mutable variable defined in a header exists once per translation unit: %s at %s' % (nm, site),
                             detail='%s %s\nconstruct  %s\nlinkage    %s (-std=%s)\n' % (kind, nm, site, lk, std)))
    return defs, viol, errs
