#!/usr/bin/env python3
"""mutate.py gen DIR [--files f]: first-order mutants of the headers that compile and pass the repository's tests -> DIR/alive.jsonl
mutate.py check DIR: tools/all.py on each of them -> DIR/result.jsonl (development aid; works on scratch copies only)."""
import sys, os, re, json, subprocess, shutil, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['signals.hpp', 'optional.hpp']
SUBS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<>\w\-])<(?![<=\w:])|(?<=\w) < (?=\w)', ' <= '), (r'(?<=\w) > (?=\w)', ' >= '), (r'<=', '<'), (r'>=(?!\w)', '>'), (r'&&(?= [!\w(])', '||'), (r'\|\|', '&&'),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'(?<=\w) \+ 1', ''), (r'(?<=\w) - 1', ''), (r'!(?=[\w(])', ''), (r'std::move\((\w+(?:\.\w+)*)\)', r'\1'),
        (r'std::forward<[\w.&]+(?:\.\.\.)?>\((\w+)\)', r'\1'), (r'std::forward<([\w.&]+)>\((\w+)\)', r'std::move(\2)'), (r'\bnoexcept\b', ''), (r'= delete', '= default'), (r'\bexplicit ', ''), (r'\bnullptr\b(?=[;)])', '(decltype(nullptr))1'),
        (r'std::lock_guard<[^;]*;', ';'), (r'std::unique_lock<[^;]*;', ';'), (r'\.exchange\((\w+)\)', r'.load()'), (r'\bconst (?=\w+&)', ''), (r'&&(?= \w+[,)])', '&'), (r'(?<=\w)& (\w+)(?=[,)])', r' \1'),
        (r'memory_order_\w+', 'memory_order_relaxed'), (r'\bif \((.*)\)\s*$', 'if (true)'), (r'\bif \((.*)\)\s*$', 'if (false)'), (r'\bwhile \((.*)\)\s*$', 'if (\\1)'), (r'return (\w[^;]*);', 'return {};'), (r'\? ([^:?]+) : ([^;:?]+)', r'? \2 : \1'),
        (r'\bstd::size_t (\w+) = 0', r'std::size_t \1 = 1'), (r'\bvirtual ', ''), (r'\bauto ', 'auto& '), (r'\bauto& ', 'auto '), (r'\bweak\b', 'shared'), (r'static_cast<([\w&:<> ]+)>\(', '('), (r'(\w+)\.swap\((\w+)\)', r'\1 = \2'), (r'\brhs\.', ''), (r'\bother\.', ''),
        (r'begin\(\)', 'end()'), (r'\bback\(\)', 'front()'), (r'0U?\b(?=[;)])', '1')]


def stmts(lines):
    """deletable single-line statements"""
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r'^(//|#|\*|/\*)', s) or not s.endswith(';'):
            continue
        if re.match(r'^(using|typedef|template|friend|class|struct|static_assert|return|public|private|protected|break)', s) or s in ('};', ';'):
            continue
        yield i


def gen(fn):
    lines = open(os.path.join(REPO, fn), newline='').read().replace('\r\n', '\n').split('\n')
    seen = set()
    incomment = False
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*') and '*/' not in s:
            incomment = True
        if incomment:
            if '*/' in s:
                incomment = False
            continue
        if not s or re.match(r'^(//|#|\*|/\*|using |typedef|static_assert|namespace)', s):
            continue
        code, sep, com = l.partition('//')
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                try:
                    new = code[:m.start()] + m.expand(rep) + code[m.end():] + sep + com
                except re.error:
                    continue
                if new != l and (i, new) not in seen:
                    seen.add((i, new))
                    out.append((i, new))
    for i in stmts(lines):
        new = re.match(r'\s*', lines[i]).group(0) + ';'
        if (i, new) not in seen:
            seen.add((i, new))
            out.append((i, new))
    # initialiser lists
    for i, l in enumerate(lines):
        m = re.match(r'^(\s*)([,:]) (\w+)[({].*[)}]\s*$', l)
        if m:
            new = '%s%s %s{}' % m.groups()
            if new != l and (i, new) not in seen:
                seen.add((i, new)); out.append((i, new))
    return [dict(file=fn, line=i + 1, old=lines[i].strip(), new=n.strip(), text=n) for i, n in out]


def place(d, m):
    os.makedirs(d, exist_ok=True)
    for f in FILES:
        t = open(os.path.join(REPO, f), newline='').read()
        if f == m['file']:
            crlf = '\r\n' in t
            ls = t.replace('\r\n', '\n').split('\n')
            ls[m['line'] - 1] = m['text']
            t = ('\r\n' if crlf else '\n').join(ls)
        open(os.path.join(d, f), 'w', newline='').write(t)


def stage_a(x):
    D, k, m = x
    d = '%s/w%d' % (D, k)
    place(d, m)
    try:
        tests = sorted(f for f in os.listdir(REPO + '/tests') if f.endswith('.cpp'))
        objs = []
        for f in tests:
            src = d + '/' + f
            # tests include "../signals.hpp"-style or by -I: copy them beside
            shutil.copy(REPO + '/tests/' + f, src)
        for f in os.listdir(REPO + '/tests'):
            if f.endswith('.hpp'):
                shutil.copy(REPO + '/tests/' + f, d)
        for f in tests:
            o = d + '/' + f + '.o'
            r = subprocess.run(['clang++-18', '-std=gnu++17', '-O0', '-w', '-I' + d, '-isystem', '/usr/src/googletest/googletest/include', '-c', d + '/' + f, '-o', o], capture_output=True, text=True)
            if r.returncode:
                return m, 'nocompile'
            objs.append(o)
        r = subprocess.run(['clang++-18'] + objs + ['-o', d + '/t', D + '/lib/libgtest.a', D + '/lib/libgtest_main.a', D + '/lib/libgtest.a', '-pthread'], capture_output=True, text=True)
        if r.returncode:
            return m, 'nolink'
        try:
            for i in range(2):
                r = subprocess.run([d + '/t'], capture_output=True, timeout=20, cwd=d)
                if r.returncode:
                    return m, 'killed'
        except subprocess.TimeoutExpired:
            return m, 'killed'
        return m, 'alive'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    mode, D = sys.argv[1], sys.argv[2]
    J = int(os.environ.get('J', '8'))
    if mode == 'gen':
        os.makedirs(D + '/lib', exist_ok=True)
        for f in ('libgtest.a', 'libgtest_main.a'):
            shutil.copy(REPO + '/_build/lib/' + f, D + '/lib')
        ms = [m for f in FILES for m in gen(f)]
        print(len(ms), 'mutants')
        c = {}
        with mp.Pool(J) as pool, open(D + '/alive.jsonl', 'w') as out:
            for m, st in pool.imap_unordered(stage_a, [(D, k, m) for k, m in enumerate(ms)], chunksize=1):
                c[st] = c.get(st, 0) + 1
                if st == 'alive':
                    out.write(json.dumps(m) + '\n'); out.flush()
        print(c)
    else:
        done = set()
        rp = D + '/result.jsonl'
        if os.path.exists(rp):
            done = {(r['file'], r['line'], r['text']) for r in map(json.loads, open(rp))}
        if not os.path.exists(D + '/base.json') or True:
            subprocess.run([sys.executable, H + '/tools/all.py', REPO, '--mkbase', D + '/base.json'], check=True)
        ms = [m for m in map(json.loads, open(D + '/alive.jsonl')) if (m['file'], m['line'], m['text']) not in done and not triv(m)]
        print(len(ms), 'to check')
        with mp.Pool(J) as pool, open(rp, 'a') as out:
            for m in pool.imap_unordered(stage_b, [(D, k, m) for k, m in enumerate(ms)], chunksize=1):
                out.write(json.dumps(m) + '\n'); out.flush()


def triv(m):
    o, n = m['old'], m['new']
    return 'declval' in o or o.replace('noexcept', '').split() == n.split() or re.sub(r'\bvirtual ', '', o) == n and 'override' in o or n == 'return {};' and o in ('return false;', 'return 0;', 'return nullptr;', 'return opt::nullopt;')


def stage_b(x):
    D, k, m = x
    d = '%s/c%d' % (D, k)
    place(d, m)
    try:
        r = subprocess.run([sys.executable, H + '/tools/all.py', d, '-j', '1', '--fast', '--base', D + '/base.json'], capture_output=True, text=True, timeout=900)
        m['result'] = (r.stdout.strip().splitlines() or ['FAILED ' + r.stderr[-300:]])[-1]
        m['out'] = r.stdout[-1200:]
    except subprocess.TimeoutExpired:
        m['result'] = 'TIMEOUT'
        m['out'] = ''
    shutil.rmtree(d, ignore_errors=True)
    return m


main()
