#!/usr/bin/env python3
"""developer helper: tools/mut.py FILE OLD NEW PROP[,PROP..] [run.py args]: run checks against a scratch copy of /repo with one textual change"""
import os, shutil, subprocess, sys, tempfile
f, old, new, props = sys.argv[1:5]; d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
try:
    subprocess.check_call(['cp', '-a', '/repo/libs', '/repo/CMakeLists.txt', d] if os.path.exists('/repo/CMakeLists.txt') else ['cp', '-a', '/repo/libs', d])
    p = os.path.join(d, f if f.startswith('libs') else 'libs/e_float/src/' + f); s = open(p, newline='').read()
    o = old.encode().decode('unicode_escape'); n = new.encode().decode('unicode_escape')
    assert s.count(o) >= 1, 'text not found'; k = int(os.environ.get('NTH', '0')); parts = s.split(o); s = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:]); open(p, 'w', newline='').write(s)
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=os.path.join(d, 'vb'))
    for q in props.split(','):
        r = subprocess.run([sys.executable, '/verif/run.py', q] + sys.argv[5:], env=env, capture_output=True, text=True)
        ls = [l[:200] for l in r.stdout.splitlines() + r.stderr.splitlines() if 'VIOLATION' in l or 'jobs' in l or 'rror' in l]
        print(q, 'rc', r.returncode, *ls[:4], sep='\n   ')
finally:
    shutil.rmtree(d)
