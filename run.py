#!/usr/bin/env python3
"""Runs the symbolic checks of one property against /repo's working tree.

usage: run.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SUBSTR] [--verbose]
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
REPO = os.environ.get('VERIF_REPO', '/repo'); S = REPO + '/libs/e_float/src'
B = os.environ.get('VERIF_BUILD', V + '/build'); T0 = time.time()
import jobs as J

BCF = '-O2 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -std=c++14 -w'.split()
NAF = '-O1 -g1 -std=c++14 -w -fsanitize=address -fsanitize=integer-divide-by-zero -fno-sanitize-recover=all -fno-omit-frame-pointer'.split()
ASAN = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=0:handle_abort=1')

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, **kw)

def tree_hash():
    h = hashlib.sha256()
    for root in (S, V + '/harness', V + '/shim'):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(' '.join(BCF + NAF).encode()); h.update(REPO.encode())
    return h.hexdigest()[:16]

class Build:
    """Bitcode and native binaries for (harness, unit set, flavour), from the current sources."""
    def __init__(self, pool):
        self.pool = pool; self.dir = '%s/t-%s' % (B, tree_hash()); os.makedirs(self.dir, exist_ok=True); self.fut = {}; self.err = []
        for d in glob.glob(B + '/t-*'):
            if d != self.dir and time.time() - os.path.getmtime(d) > 3 * 3600: shutil.rmtree(d, ignore_errors=True)
    def task(self, key, fn):
        if key not in self.fut: self.fut[key] = self.pool.submit(fn)
        return self.fut[key]
    def cc(self, src, out, flavour, defs, incs, native):
        if os.path.exists(out): return out
        fl = J.FLAVOURS[flavour]; tmp = out + '.tmp%d' % os.getpid()
        inc = (['-isystem' + V + '/shim/std', '-include', V + '/shim/std/vfcfg.h'] if not native else []) + ['-I' + S, '-I' + V + '/harness'] + ['-I' + i for i in incs]
        d = ['-D' + x for x in fl['defs'] + defs]
        if native: cmd = ['g++'] + NAF + d + ['-DVF_NATIVE'] + inc + ['-c', src, '-o', tmp]
        else: cmd = ['clang++-18'] + BCF + (['-fno-builtin'] if src.startswith(V + '/shim') else []) + fl.get('bcflags', []) + d + inc + ['-emit-llvm', '-c', src, '-o', tmp]
        r = sh(cmd)
        if r.returncode: raise RuntimeError('compile failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
        os.rename(tmp, out); return out
    def units(self, j, native=False): return [u if u.startswith('/') else S + '/' + u for u in (J.ALL if native else J.UNITS[j['units']])]
    def name(self, j, src, native):
        return '%s/%s-%s-%s.%s' % (self.dir, j['flavour'], hashlib.md5(('|'.join(j['defs']) + src).encode()).hexdigest()[:8] if src.startswith(V) else 'u', os.path.relpath(src, S).replace('/', '_').replace('..', ''), 'o' if native else 'bc')
    def objs(self, j, native):
        srcs = self.units(j, native) + [V + '/harness/' + j['harness']] + ([V + '/harness/vf_native.cpp'] if native else [V + '/shim/libc.cpp'] + [V + '/harness/' + x for x in j['extra']])
        fs = []
        for s in srcs:
            o = self.name(j, s, native); df = j['defs'] if s.startswith(V) else []
            fs.append((o, self.task(o, lambda s=s, o=o, df=df: self.cc(s, o, j['flavour'], df, [], native))))
        return fs
    def link(self, j, native, fs):
        tag = hashlib.md5('|'.join(o for o, _ in fs).encode()).hexdigest()[:10]; out = '%s/%s-%s' % (self.dir, 'nat' if native else 'all', tag) + ('' if native else '.bc')
        for _, f in fs: f.result()
        with open(out + '.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                tmp = out + '.tmp%d' % os.getpid(); o = [x for x, _ in fs]
                cmd = ['g++', '-fsanitize=address', '-fsanitize=integer-divide-by-zero'] + o + ['-o', tmp, '-lgmpxx', '-lgmp'] + J.FLAVOURS[j['flavour']].get('libs', []) if native else ['llvm-link-18'] + o + ['-o', tmp]
                r = sh(cmd)
                if r.returncode: raise RuntimeError('link failed: %s\n%s' % (' '.join(cmd)[:400], r.stderr[-3000:]))
                os.rename(tmp, out)
        return out

def run_native(exe, j, inputs, search=None, timeout=60):
    a = [exe, j.get('native_entry') or j['entry'], ','.join(map(str, j['params']))]
    if search: a += ['--search', str(search[0]), str(search[1])]
    try: r = subprocess.run(a, input=''.join('%s %s\n' % kv for kv in inputs.items()), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ASAN)
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stdout + ('\n' + r.stderr[-1500:] if r.returncode not in (0, 1, 77) else '')

def run_job(sym, bc, j, seed, tier):
    out = '%s/out-%d-%s-%s.json' % (B, os.getpid(), j['entry'], hashlib.md5((j['name'] + j['harness']).encode()).hexdigest()[:8])
    dl = j['deadline'] * (4 if tier == 'thorough' and not j.get('fixed_deadline') else 1)
    cmd = [sym, bc, '--entry', j['entry'], '--out', out, '--deadline', str(dl), '--seed', str(seed), '--samples', str(j['samples'])]
    for p in j['params']: cmd += ['--param', str(p)]
    for o in j['over']: cmd += ['--override', o]
    cmd += j['opts']
    try:
        os.path.exists(out) and os.remove(out)
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try: _, e = p.communicate(timeout=dl * 1.5 + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); return {'error': 'hard time limit'}
        if not os.path.exists(out): return {'error': 'engine died (%s): %s' % (p.returncode, e[-300:])}
        return json.load(open(out))
    except Exception as ex: return {'error': repr(ex)}
    finally:
        if os.path.exists(out) and not os.environ.get('KEEP'): os.remove(out)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--only'); ap.add_argument('--verbose', '-v', action='store_true'); a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1')); tier = 'thorough' if a.tier == 'thorough' else 'quick'
    P = J.PROPS[a.prop]; js = [j for j in J.jobs_of(a.prop) if tier == 'thorough' or not j['thorough']]
    if a.only: js = [j for j in js if a.only in j['name']]
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence/replay', exist_ok=True)
    for f in glob.glob(V + '/evidence/replay/%s-*' % a.prop): os.remove(f)
    pool = cf.ThreadPoolExecutor(a.jobs); lpool = cf.ThreadPoolExecutor(64); bld = Build(pool)
    def eng():
        with open(B + '/engine.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX); r = sh(['bash', V + '/engine/build.sh', B])
            if r.returncode: raise RuntimeError('engine build failed\n' + r.stderr[-3000:])
    feng = pool.submit(eng); sym = B + '/sym'
    bcs, nats = {}, {}
    gk = lambda j: (j['flavour'], j['units'], j['harness'], tuple(j['defs']), tuple(j['extra']))
    for j in js:
        if gk(j) not in bcs: fs = bld.objs(j, False); bcs[gk(j)] = lpool.submit(bld.link, j, False, fs)
    for j in js:
        if j['native'] and gk(j) not in nats: fs = bld.objs(j, True); nats[gk(j)] = lpool.submit(bld.link, j, True, fs)
    feng.result(); res = []; viol = []; inconc = []; valid = 0; samples = []; notes = []
    try: known = [k for k in json.load(open(V + '/known_findings.json')) if k['property'] == a.prop]
    except FileNotFoundError: known = []
    def one(j):
        try: bc = bcs[gk(j)].result()
        except Exception as ex: return j, {'error': str(ex)}, [], 0, []
        t = time.time(); r = run_job(sym, bc, j, seed, tier); r['t'] = time.time() - t
        conf = []; bad = []; nv = 0; smp = []
        try: nat = nats[gk(j)].result() if j['native'] else None
        except Exception as ex: r['error'] = (r.get('error') or '') + ' native: ' + str(ex); nat = None
        if r.get('error') and 'native' not in r.get('error'): r['why'] = [r['error']]
        else: r['why'] = list(r.get('inconclusive_why') or [])
        if r.get('error'): r['why'] = [r['error']]
        miss = [l for l in j['reach'] if not (r.get('reach') or {}).get(l)]
        if not r.get('error') and not r.get('violations') and miss: r['why'].append('nothing reached ' + ','.join(miss)); r['vacuous'] = True
        if r.get('undef_branches'): r['why'].append('branch on an uninitialised value')
        if nat:
            for s in (r.get('samples') or []):
                rc, o = run_native(nat, j, s['inputs']); obs = [l.split(' ', 2)[1:] for l in o.splitlines() if l.startswith('OBS ')]
                exp = s['obs']
                same = rc in (0, 1) and len(obs) == len(exp) and all(e[1] == '?' or e == g for e, g in zip(exp, obs))
                if rc == 0 and same: nv += 1; smp.append({'job': j['name'], 'inputs': s['inputs'], 'obs': s['obs'][:24]})
                elif rc not in (0, 77, 'timeout'): conf.append(({'kind': 'sample', 'msg': 'native run of a sampled path fails', 'inputs': s['inputs']}, o))
                elif rc == 77: pass
                else: bad.append('encoding disagrees with the native run on %s' % json.dumps(s['inputs'])[:600])
            tried = 0
            for v in (r.get('violations') or []):
                rc, o = run_native(nat, j, v['inputs']); tried += 1; v['native_rc'] = str(rc)
                if rc in (1, 99) or (isinstance(rc, int) and rc < 0): conf.append((v, o))
            need = bool(r.get('violations') or r['why']) and not conf
            if need and not (r.get('vacuous') and len(r['why']) == 1):
                rc, o = run_native(nat, j, {}, (seed, j['search']), timeout=j['search'] + 60)
                if 'FOUND\n' in o and 'NOTFOUND' not in o:
                    inp = dict(l.rsplit(' ', 1) for l in o.split('FOUND\n', 1)[1].split('END\n')[0].splitlines() if ' ' in l); rc2, o2 = run_native(nat, j, inp)
                    if rc2 in (1, 99) or (isinstance(rc2, int) and rc2 < 0): conf.append(({'kind': 'search', 'msg': (r.get('violations') or [{'msg': 'undecided'}])[0]['msg'], 'inputs': inp}, o2))
        elif r.get('violations') and not j['native']:
            for v in r['violations']:
                if v['solver_sat'] or v['kind'] == 'event': conf.append((v, 'the entry has no native counterpart; the solver model of the encoded code is the witness'))
        if r.get('violations') and not conf: r['why'].append('counterexample not confirmed natively (exit %s): ' % ','.join(v.get('native_rc', '-') for v in r['violations'])[:40] + '; '.join(sorted(r['violation_counts']))[:300])
        r['why'] += bad
        return j, r, conf, nv, smp
    for f in [pool.submit(one, j) for j in sorted(js, key=lambda j: -j['deadline'])]:
        j, r, conf, nv, smp = f.result(); res.append((j, r)); valid += nv; samples += smp[:1]; viol += [(j, v, o) for v, o in conf[:2]]
        if r['why'] if 'why' in r else r.get('error'): inconc.append((j, r.get('why') or [r['error']]))
        if a.verbose: print('%-34s %6.1fs paths %-5s asserts %-5s/%-4s q %-5s unk %-3s ok=%s %s' % (j['name'], r.get('t', 0), r.get('paths'), r.get('asserts'), r.get('asserts_by_solver'), r.get('queries'), r.get('unknown'), not conf and not r.get('why'), (r.get('why') or r.get('error') or '')), r.get('violation_counts') or '', 'samples ok %d' % nv, flush=True)
    # known findings: each is a concrete replay
    kout = []
    for k in known:
        if k.get('status') == 'fixed': continue
        j = next((x for x in J.jobs_of(a.prop) if x['entry'] == k['entry'] and x['native']), None) or J.job(k['harness'], k['entry'], **k.get('job', {})); j = dict(j, params=k.get('params', [])); 
        if gk(j) not in nats: nats[gk(j)] = lpool.submit(bld.link, j, True, bld.objs(j, True))
        rc, o = run_native(nats[gk(j)].result(), j, k.get('inputs', {}))
        if rc != 0 and rc != 77: kout.append(k['what']); print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    n = 0; paths = []
    for j, v, o in viol:
        n += 1; rp = '%s/evidence/replay/%s-%d.txt' % (V, a.prop, n)
        with open(rp, 'w') as f: f.write('property %s\nharness %s\nentry %s\nparams %s\nwhat %s: %s\ninputs\n%s\nnative run of the real code:\n%s\n' % (a.prop, j['harness'], j['entry'], j['params'], v['kind'], v['msg'], ''.join('  %s %s\n' % kv for kv in v['inputs'].items()), o[-4000:]))
        paths.append((rp, v['msg'], j['name']))
    R = [r for _, r in res]; g = lambda k: sum(r.get(k) or 0 for r in R)
    fn = sorted({x for r in R for x in (r.get('functions') or [])}); ln = {}
    for r in R:
        for f, c in (r.get('lines') or {}).items():
            f = os.path.normpath(f)
            if f.startswith(REPO): ln[f[len(REPO) + 1:]] = max(ln.get(f[len(REPO) + 1:], 0), c)
    ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking', coverage=dict(states=g('paths'), transitions=g('instructions'), traces_validated_against_impl=valid, samples=samples[:6] or [{'job': j['name'], 'paths': r.get('paths'), 'reach': r.get('reach')} for j, r in res[:4]],
        jobs=len(res), jobs_decided=len(res) - len(inconc), assertions=g('asserts'), assertions_sent_to_solver=g('asserts_by_solver'), queries=g('queries'), sat=g('sat'), unsat=g('unsat'), unknown=g('unknown'), solver_s=round(sum(r.get('solver_s') or 0 for r in R), 2), max_query_s=max([r.get('max_query_s') or 0 for r in R] + [0]), forks=g('forks'),
        functions_encoded=fn[:400], source_lines_encoded=ln, bounds=P['bounds'], job_list=[{'job': j['name'], 'bounds': j['bounds'], 'paths': r.get('paths'), 'asserts': r.get('asserts'), 'queries': r.get('queries'), 'solver_s': r.get('solver_s'), 'undecided': (r.get('why') or [])[:3]} for j, r in res], undecided=[[j['name'], w[:3]] for j, w in inconc], known_findings=kout),
        assumptions=J.COMMON_ASSUMPTIONS + P.get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=len(viol))
    if not a.only:
        with open('%s/evidence/%s.json' % (V, a.prop), 'w') as f: json.dump(ev, f, indent=1)
    for rp, m, nm in paths: print('%s: %s' % (nm, m)); print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    if paths: return 1
    for j, w in inconc: print('UNDECIDED %s: %s' % (j['name'], '; '.join(w)[:400]))
    print('%s %s: %d jobs, %d decided, %d paths, %d assertions, %d queries, %d native traces agree, %.1f s' % (a.prop, tier, len(res), len(res) - len(inconc), g('paths'), g('asserts'), g('queries'), valid, time.time() - T0))
    # undecided jobs are reported in the evidence; the run only counts as an answer when most of the claim was decided
    return 0 if len(inconc) * 2 < len(res) + 1 and any(not r.get('error') for r in R) else 2

if __name__ == '__main__':
    try: rc = main()
    except Exception as ex:
        import traceback; traceback.print_exc(); rc = 3
    sys.stdout.flush(); os._exit(rc)
