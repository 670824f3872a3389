#!/usr/bin/env python3
"""seedrun.py [ids]: run the check of each planted change against a scratch copy carrying it (development aid)."""
import sys, os, subprocess, json, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(H + '/seeded'))
for i in ids:
    d = H + '/seeded/' + i
    w = '/tmp/seedw/run.%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seedw', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
    p = json.load(open(d + '/meta.json'))['property']
    t = time.time()
    r = subprocess.run([sys.executable, H + '/check.py', p], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True, cwd=H)
    o = r.stdout.strip().splitlines()
    print('%-24s %s rc=%d %3ds %s' % (i, p, r.returncode, time.time() - t, (o or [''])[0][:150]), flush=True)
    shutil.rmtree(w, ignore_errors=True)
