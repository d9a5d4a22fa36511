#!/usr/bin/env python3
"""developer helper: tools/seed.py SPEC.py...: makes /verif/seeded/<id> from a spec (ID, PROP, FILE, EDITS, DEMO, NEEDS, BREAKS), builds and tests it in the scratch copy /tmp/sd, and keeps it only when tests pass and the demo tells the trees apart"""
import json, os, re, shutil, subprocess, sys, time
SD = '/tmp/sd'; R = SD + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for spec in sys.argv[1:]:
    s = {}; exec(open(spec).read(), s); d = '/verif/seeded/' + s['ID']; t = '/tmp/sd/new/' + s['ID']; os.makedirs(t, exist_ok=True)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD && git -C %s checkout -- .' % (R, R, R))
    open(t + '/demo.cpp', 'w').write(s['DEMO']); shutil.copy('/verif/tools/demo_template.sh', t + '/demo.sh')
    json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(t + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % t, cwd=R); ok0 = a.returncode == 0
    for f, o, n in s['EDITS']:
        p = R + '/libs/e_float/src/' + f if not f.startswith('libs') else R + '/' + f; x = open(p, newline='').read(); crlf = '\r\n' in x
        if crlf: o = o.replace('\n', '\r\n'); n = n.replace('\n', '\r\n')
        k = s.get('NTH', 0); assert x.count(o) > k, ('text not found', spec, o); ps = x.split(o); x = o.join(ps[:k + 1]) + n + o.join(ps[k + 1:]); open(p, 'w', newline='').write(x)
    open(t + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    b = sh('bash %s/demo.sh' % t, cwd=R); ok1 = b.returncode not in (0, 7, 8, 9)
    if not (ok0 and ok1): print(s['ID'], 'DEMO unchanged rc', a.returncode, 'patched rc', b.returncode, (a.stderr + a.stdout + b.stderr + b.stdout)[-800:]); continue
    t0 = time.time(); c = sh('bash %s/vp/test.sh %s/out.json' % (SD, SD)); r = json.load(open(SD + '/out.json')); base = json.load(open('/opt/vp/BASELINE.json')); names = base['stable']; miss = [x for x in names if x not in r['passed']]
    print(s['ID'], 'demo', a.returncode, b.returncode, 'tests failing', len(miss), miss[:3], '%.0f s' % (time.time() - t0), flush=True)
    if not miss:
        os.makedirs(d, exist_ok=True)
        for f in ('patch.diff', 'demo.cpp', 'demo.sh', 'meta.json'): shutil.copy(t + '/' + f, d + '/' + f)
sh('git -C %s checkout -- .' % R)
