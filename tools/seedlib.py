"""Development aid for seeded/: write a planted change, confirm it (builds, tests pass, demo fails only with it), run a check on it."""
import os, subprocess, json, shutil, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++-18 -std=gnu++17 -g -O0 -w %s -I"$PWD" -pthread "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 100 ./demo
'''


def copy():
    w = '/tmp/seedw/repo.%d' % os.getpid()
    if not os.path.isdir(w):
        os.makedirs('/tmp/seedw', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        shutil.rmtree(w + '/_build', ignore_errors=True)
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    return w


def edit(w, edits):
    for f, old, new, *n in edits:
        p = os.path.join(w, f)
        t = open(p, newline='').read()
        crlf = '\r\n' in t
        if crlf:
            t = t.replace('\r\n', '\n')
        c = t.count(old)
        want = n[0] if n else 1
        if want == 'all':
            t = t.replace(old, new)
        elif isinstance(want, tuple):       # (k,) only the k-th occurrence
            parts = t.split(old)
            k = want[0]
            t = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            assert c == want, (f, c, old)
            t = t.replace(old, new)
        if crlf:
            t = t.replace('\n', '\r\n')
        open(p, 'w', newline='').write(t)


def tests(w, jobs=8):
    env = dict(os.environ, CC='/usr/bin/clang-18', CXX='/usr/bin/clang++-18')
    b = w + '/_build'
    if not os.path.isdir(b):
        r = subprocess.run(['cmake', '-S', w, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTING=ON', '-DBUILD_EXAMPLES=ON', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
                        '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest'], env=env, capture_output=True, text=True)
        if r.returncode:
            return False, r.stdout + r.stderr
    r = subprocess.run(['ninja', '-C', b, '-j%d' % jobs], capture_output=True, text=True)
    if r.returncode:
        return False, 'build: ' + r.stdout[-1500:]
    r = subprocess.run(['ctest', '--test-dir', b, '-j4', '--timeout', '60'], capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-1200:]


def mk(id, prop, edits, demo, needs, breaks, flags='', cmd=None):
    w = copy()
    edit(w, edits)
    d = os.path.join(H, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', w, 'diff', '--no-color'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(cmd or DEMO % flags)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    ok, log = tests(w)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    r2 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    good = ok and r1.returncode == 0 and r2.returncode not in (0, 3)
    print('%s: tests %s, demo clean %d, demo patched %d -> %s' % (id, ok, r1.returncode, r2.returncode, 'OK' if good else 'BAD'))
    if not good:
        print(log if not ok else '', r1.stderr[-800:], r2.stdout[-300:], r2.stderr[-800:])
        return
    e = dict(os.environ, VERIF_REPO=w)
    r = subprocess.run([sys.executable, H + '/check.py', prop], env=e, capture_output=True, text=True, cwd=H)
    print('   check %s rc=%d: %s' % (prop, r.returncode, '\n     '.join(r.stdout.strip().splitlines()[:3] + r.stdout.strip().splitlines()[-1:])))
    sys.stdout.flush()
