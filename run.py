#!/usr/bin/env python3
"""Runs the checks: builds the harness with /repo's working tree, runs suites, judges, writes evidence.

  run.py check <property> [quick|thorough]
  run.py replay <file under out/>
  run.py setup
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD, OUT, EVID = V + '/build', V + '/out', V + '/evidence'
sys.path.insert(0, V + '/tools')
from checks import CHECKS, GROUPS, RULES  # noqa

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
           BOTAN_MLOCK_POOL_SIZE='0', UBSAN_OPTIONS='print_stacktrace=1',
           TSAN_OPTIONS='halt_on_error=1:second_deadlock_stack=1:suppressions=' + V + '/tools/tsan.supp')


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def shm():
    # scratch databases: in memory, when there is a place for it
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp'), '/tmp', OUT):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 1 << 30:
                return d
    return OUT


def tree_hash(group):
    h = hashlib.sha256(json.dumps(GROUPS[group], sort_keys=True).encode())
    roots = [REPO + '/' + d for d in ('ron', 'rdt', 'db')] + [V + '/harness']
    for root in roots:
        for d, sub, files in sorted(os.walk(root)):
            sub[:] = sorted(s for s in sub if s != 'test')
            for f in sorted(files):
                if f.endswith(('.hpp', '.cc', '.h')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def build(group):
    g = GROUPS[group]
    d = '%s/%s-%s' % (BUILD, group, tree_hash(group))
    exe = d + '/' + group
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):  # stale builds of this group
        if old.startswith(group + '-'):
            shutil.rmtree(BUILD + '/' + old, ignore_errors=True)
    os.makedirs(d)
    jobs = []
    for s in g['harness']:
        jobs.append((V + '/harness/' + s, d + '/h_' + s.replace('/', '_') + '.o'))
    for s in g['repo']:
        jobs.append((REPO + '/' + s, d + '/r_' + s.replace('/', '_') + '.o'))
    inc = ['-I' + V + '/harness'] + ['-I' + V + '/harness/' + i for i in g.get('inc', [])] + ['-I' + REPO, '-I/usr/include/botan-2']

    def one(j):
        r = sh([g['cxx']] + g['flags'] + inc + ['-c', j[0], '-o', j[1]])
        return j[0], r.returncode, r.stdout
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, log in ex.map(one, jobs):
            if rc:
                shutil.rmtree(d, ignore_errors=True)
                raise Broken('cannot compile %s:\n%s' % (src, log[-6000:]))
    libs = g['libs']
    if any('{' in x for x in libs):
        res = sh([g['cxx'], '-print-resource-dir']).stdout.strip()
        rts = [p for p in glob.glob(res + '/lib/*/libclang_rt.tsan*.a') if re.search(r'/libclang_rt\.tsan(-x86_64)?\.a$', p)]
        if not rts:
            raise Broken('no ThreadSanitizer runtime under ' + res)
        libs = [x.replace('{TSANRT}', rts[0]).replace('{V}', V) for x in libs]
    r = sh([g['cxx']] + g['flags'] + [o for _, o in jobs] + libs + ['-o', exe + '.tmp'])
    if r.returncode:
        shutil.rmtree(d, ignore_errors=True)
        raise Broken('cannot link %s:\n%s' % (group, r.stdout[-6000:]))
    os.rename(exe + '.tmp', exe)
    return exe


def run_group(prop, tier, seed, group, suites, extra, tmp):
    exe = build(GROUPS[group].get('same_as', group))
    args = [exe, '--seed', str(seed), '--out', tmp, '--tier', tier, '--jobs', '8']
    args += extra
    for s, n in suites.items():
        args += ['--suite', '%s=%d' % (s, n[0 if tier == 'quick' else 1])]
    scratch = tempfile.mkdtemp(prefix='vf-', dir=shm())
    try:
        r = sh(GROUPS[group].get('wrap', []) + args, env=dict(ENV, VF_TMP=scratch), cwd=tmp)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stderr.write(r.stdout)
    if not os.path.exists(tmp + '/stats.json'):
        raise Broken('the driver %s gave no result (exit %d):\n%s' % (group, r.returncode, r.stdout[-3000:]))
    st = json.load(open(tmp + '/stats.json'))
    viol = []
    if os.path.exists(tmp + '/violations.jsonl'):
        viol = [json.loads(l) for l in open(tmp + '/violations.jsonl')]
    if st['violations'] and not viol:
        raise Broken('violations were counted but not recorded')
    for v in viol:
        v['group'] = group
    return st, viol


def known():
    p = V + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def matches(k, prop, v):
    return (k.get('status') == 'known' and k['property'] == prop and k['suite'] == v['suite'] and k['key'] == v['key'] and
            re.search(k.get('match', ''), v['msg'] + '\n' + v['input'], re.S) is not None)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    total, counters, samples, viol = dict(evaluations=0, distinct=0), {}, [], []
    for i, part in enumerate(spec['parts']):
        if tier == 'quick' and part.get('thorough_only'):
            continue
        tmp = '%s/run-%s-%s-%d' % (OUT, prop, os.getpid(), i)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            st, vi = run_group(prop, tier, seed, part['group'], part['suites'], part.get('args', []), tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        total['evaluations'] += st['evaluations']
        total['distinct'] += st['distinct']
        pre = part.get('label', '')
        for k, n in st['counters'].items():
            counters[pre + k] = counters.get(pre + k, 0) + n
        samples += st['samples'][:4]
        viol += vi
        planned = sum(n[0 if tier == 'quick' else 1] for n in part['suites'].values())
        if not vi and st['evaluations'] < planned:
            raise Broken('only %d of %d cases ran' % (st['evaluations'], planned))
    for c in spec.get('must_see', []):
        if not viol and not counters.get(c):
            raise Broken('inconclusive: the monitors never observed "%s"' % c)
    kn = known()
    fresh, seen = [], {}
    for v in viol:
        for k in kn:
            if matches(k, prop, v):
                seen[k['what']] = seen.get(k['what'], 0) + 1
                break
        else:
            fresh.append(v)
    for k in kn:
        if k['property'] == prop and k.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    keys = []
    for v in sorted(fresh, key=lambda v: len(v['input']) + len(v['msg'])):
        key = (v['suite'], v['key'])
        if key in keys:
            continue
        keys.append(key)
        v.update(property=prop, tier=tier)
        f = '%s/%s-%s-%d.json' % (OUT, prop, v['suite'], v['idx'])
        json.dump(v, open(f, 'w'), indent=1)
        if len(keys) <= 5:
            print('suite %s case %d: %s\n%s\n' % (v['suite'], v['idx'], v['key'], v['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, f))
        rc = 1
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'),
              coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=total['distinct'],
                            rule=spec['rule'], samples=samples[:12],
                            observed={k: n for k, n in sorted(counters.items()) if not k.startswith('violations[')},
                            suites={s: n[0 if tier == 'quick' else 1] for p in spec['parts'] for s, n in p['suites'].items()},
                            known_findings_observed=seen),
              assumptions=spec.get('assumptions', []) + RULES['assumptions'],
              wall_s=round(time.time() - t0, 2), violations=len(keys))
    tmpf = EVID + '/.%s.json' % prop
    json.dump(ev, open(tmpf, 'w'), indent=1)
    os.rename(tmpf, EVID + '/%s.json' % prop)
    print('%s %s: %d cases, %d distinct, %d violation kinds, %.1f s' %
          (prop, tier, total['evaluations'], total['distinct'], len(keys), time.time() - t0))
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        for t in ('clang++', 'g++', 'valgrind'):
            if not shutil.which(t):
                print('missing tool: ' + t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        return 0
    if len(a) >= 2 and a[0] == 'replay':
        v = json.load(open(a[1]))
        exe = build(GROUPS[v['group']].get('same_as', v['group']))
        tmp = OUT + '/replay'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        subprocess.run([exe, '--seed', str(v['seed']), '--base', str(v['idx']), '--cases', '1', '--jobs', '1', '--out', tmp,
                        '--tier', v['tier'], '--suite', v['suite']], env=dict(ENV, VF_TMP=tmp), cwd=tmp)
        ok = True
        if os.path.exists(tmp + '/violations.jsonl'):
            for l in open(tmp + '/violations.jsonl'):
                d = json.loads(l)
                print(d['key'] + '\n' + d['msg'] + '\ninput:\n' + d['input'])
                ok = False
        return 0 if ok else 1
    if len(a) >= 2 and a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        try:
            return check(a[1], tier)
        except Broken as e:
            print('ERROR (no verdict): %s' % e)
            return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
