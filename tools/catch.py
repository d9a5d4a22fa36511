#!/usr/bin/env python3
"""developer helper: tools/catch.py ID.. : run each seeded bug's own check (and -a: extra checks) against a scratch copy of /repo with the bug applied"""
import json, os, shutil, subprocess, sys, tempfile
for i in sys.argv[1:]:
    m = json.load(open(f'/verif/seeded/{i}/meta.json')); d = tempfile.mkdtemp(prefix='cat', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo/libs', d]); subprocess.check_call(['git', 'apply', f'/verif/seeded/{i}/patch.diff'], cwd=d)
        r = subprocess.run([sys.executable, '/verif/run.py', m['property']], env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD=os.path.join(d, 'vb')), capture_output=True, text=True)
        print(i, m['property'], 'rc', r.returncode, *[l[:180] for l in r.stdout.splitlines() if 'VIOLATION' in l or 'jobs' in l][:3], sep='  ', flush=True)
    finally: shutil.rmtree(d)
