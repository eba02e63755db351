#!/usr/bin/env python3
"""Driver: builds a property's harnesses from /repo's working tree, explores, confirms, reports, writes evidence.

usage: run.py <id> <quick|thorough> [--replay FILE] [--keep] [--bin NAME]
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, resource, threading, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
CACHE = os.path.join(BUILD, 'cache')
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or max(2, min(8, os.cpu_count() or 8))
BASE = ['-std=gnu++14', '-I' + REPO, '-I' + HERE + '/harness', '-DBINARY_OUTPUT', '-DMONTGOMERY_OUTPUT', '-DUSE_ASM',
        '-DCURVE_ALT_BN128', '-DNO_PROCPS', '-DNDEBUG', '-mpclmul', '-msse4.1', '-w']

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def lib_sources():
    out = []
    for p in sorted(glob.glob(REPO + '/libff/**/*.cpp', recursive=True)):
        r = os.path.relpath(p, REPO)
        if '/tests/' in r or '/examples/' in r or '/bn128/' in r or r.endswith('multiexp_profile.cpp'):
            continue
        out.append(r)
    return out

class Hasher:
    def __init__(self):
        h = hashlib.sha256()
        for p in sorted(glob.glob(REPO + '/libff/**/*', recursive=True)):
            if p.endswith(('.hpp', '.tcc', '.h', '.inc')):
                h.update(p.encode()); h.update(read(p))
        self.headers = h.hexdigest()
        h = hashlib.sha256()
        for p in sorted(glob.glob(HERE + '/harness/*')):
            if p.endswith(('.hpp', '.h')):
                h.update(p.encode()); h.update(read(p))
        self.harness = h.hexdigest()

def compile_one(src, flags, key, tag, errors):
    obj = os.path.join(CACHE, key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    cmd = [CXX(flags)] + [f for f in flags if not f.startswith('CXX=')] + ['-c', src, '-o', tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errors.append('%s: %s\n%s' % (tag, ' '.join(cmd), r.stdout[-6000:]))
        if os.path.exists(tmp): os.unlink(tmp)
        return None
    os.rename(tmp, obj)
    return obj

def CXX(flags):
    for f in flags:
        if f.startswith('CXX='):
            return f[4:]
    return 'g++'

def flagset(b):
    fl = list(BASE)
    for d in b.get('undef', []):
        fl = [x for x in fl if x != '-D' + d]
    return fl + b.get('flags', []) + [b.get('opt', '-O1')]

def prune():
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + '/*')]
        fs.sort(reverse=True); tot = 0
        for m, s, p in fs:
            tot += s
            if tot > 3 << 30: os.unlink(p)
    except OSError:
        pass

def build(bins, work):
    os.makedirs(CACHE, exist_ok=True)
    prune()
    H = Hasher(); errors = []; jobs = {}; plan = []
    for b in bins:
        fl = flagset(b)
        objs = []
        libfl = fl + b.get('libflags', [])
        srcs = lib_sources() if b.get('lib', True) else []
        for rel in srcs:
            k = hashlib.sha256(('\0'.join(libfl) + H.headers + rel).encode() + read(os.path.join(REPO, rel))).hexdigest()[:40]
            jobs[k] = (os.path.join(REPO, rel), libfl, rel); objs.append(k)
        hs = [b['src']] + b.get('extra', [])
        hfl = fl + b.get('hflags', [])
        for s in hs:
            p = os.path.join(HERE, 'harness', s)
            k = hashlib.sha256(('\0'.join(hfl) + H.headers + H.harness + s).encode() + read(p)).hexdigest()[:40]
            jobs[k] = (p, hfl, s); objs.append(k)
        for s in b.get('plain', []): # the explorer's own run-time, compiled without instrumentation
            p = os.path.join(HERE, 'harness', s); pfl = ['-std=gnu++14', '-O2', '-g1']
            k = hashlib.sha256(('\0'.join(pfl) + H.harness + s).encode() + read(p)).hexdigest()[:40]
            jobs[k] = (p, pfl, s); objs.append(k)
        plan.append((b, objs))
    # harness files first: they take longest
    order = sorted(jobs, key=lambda k: (not jobs[k][0].startswith(HERE), k))
    with ThreadPoolExecutor(JOBS) as ex:
        res = dict(zip(order, ex.map(lambda k: compile_one(jobs[k][0], jobs[k][1], k, jobs[k][2], errors), order)))
    if errors:
        return None, errors
    def link(pb):
        b, objs = pb
        exe = os.path.join(work, b['name'])
        cmd = [CXX(flagset(b))] + b.get('ldflags', []) + [res[k] for k in objs] + ['-o', exe, '-lgmpxx', '-lgmp', '-lsodium', '-lcrypto'] + b.get('libs', [])
        for f in flagset(b) if not b.get('plain') else []:
            if f.startswith('-fsanitize') or f == '-fopenmp': cmd.insert(1, f)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errors.append('link %s: %s' % (b['name'], r.stdout[-4000:]))
        return exe
    with ThreadPoolExecutor(JOBS) as ex:
        exes = list(ex.map(link, plan))
    return (None if errors else {b['name']: e for b, e in zip(bins, exes)}), errors

def load_known(pid):
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) \| (.*)', l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    return known

def limits():
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def san_lines(err):
    l = [x.strip() for x in err.splitlines() if 'runtime error' in x or 'ERROR: AddressSanitizer' in x or re.match(r'\s+#\d+ |==\d+== +(Cond|Use|Inv|at|by|Sysc|Unin|Mism)', x)]
    return ' | '.join(re.sub(r'0x[0-9a-f]+', '', x) for x in l[:8])[:1200] if l and not l[0].startswith('#') else ''

def run_shard(exe, b, tier, shard, nshards, work, known, only=None, timeout=800):
    out = os.path.join(work, '%s.%s.json' % (b['name'], only and hashlib.md5(only.encode()).hexdigest()[:10] or shard))
    for p in (out, out + '.tmp', out + '.unit'):
        if os.path.exists(p): os.unlink(p)
    cmd = b.get('wrap', []) + [exe, '--tier', tier, '--out', out, '--shard', str(shard), '--nshards', str(nshards)]
    if only: cmd += ['--only', only]
    for k in known: cmd += ['--known', k]
    t0 = time.time()
    env = dict(os.environ); env.update(b.get('env', {}))
    sc = os.path.join(work, 'scratch.%s.%s' % (b['name'], shard)); os.makedirs(sc, exist_ok=True)
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=sc, env=env,
                           preexec_fn=None if b.get('nolimit') else limits)
        rc, err = r.returncode, (r.stderr if len(r.stderr) < 20000 else r.stderr[:10000] + r.stderr[-10000:]).decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = -999, 'timeout'
    d = None
    if os.path.exists(out):
        try: d = json.load(open(out))
        except ValueError: d = None
    if d is None:
        d = dict(states=0, transitions=0, traces=0, sections={}, samples=[], notes=[], known_hit=[], violations=[], finished=False,
                 fatal='process ended with code %s without a report: %s' % (rc, san_lines(err) or err[-400:]), unit=only or (open(out + '.unit').read() if os.path.exists(out + '.unit') else '?'), crumb='')
    d['rc'] = rc; d['wall'] = time.time() - t0; d['bin'] = b['name']; d['shard'] = shard; d['timeout'] = rc == -999
    d['stderr'] = san_lines(err) or err[-800:]
    return d

def viols_of(d):
    v = list(d['violations'])
    if d.get('fatal'):
        v.append(dict(key='fatal:' + d['fatal'][:40], unit=d.get('unit', '?'), msg='%s in unit %s [at %s] %s' % (d['fatal'], d.get('unit'), d.get('crumb'), (d.get('stderr', '')[:900]))))
    return v

def selfcheck():
    ok = all(shutil.which(x) for x in ('g++', 'ar')) and os.path.isdir(REPO + '/libff')
    os.makedirs(BUILD, exist_ok=True)
    print('toolchain and sources present' if ok else 'missing tools')
    return 0 if ok else 2

def main():
    if sys.argv[1] == '--selfcheck': return selfcheck()
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    args = sys.argv[3:]
    replay = json.load(open(args[args.index('--replay') + 1])) if '--replay' in args else None
    onlybin = args[args.index('--bin') + 1] if '--bin' in args else None
    chk = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    work = os.path.join(BUILD, '%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rc = 2
    try:
        bins = [b for b in chk['bins'] if tier in b.get('tiers', ('quick', 'thorough'))]
        if onlybin: bins = [b for b in bins if b['name'] == onlybin]
        if replay: bins = [b for b in chk['bins'] if b['name'] == replay['bin']]
        exes, errors = build(bins, work)
        if exes is None:
            print('\n'.join(errors))
            print('BUILD FAILED: no answer')
            return 2
        tb = time.time() - t0
        known = load_known(pid)
        if replay:
            b = bins[0]
            d = run_shard(exes[b['name']], b, replay['tier'], replay['shard'], replay['nshards'], work, known, only=replay['unit'] if replay.get('by_unit') else None)
            vs = viols_of(d)
            for v in vs[:10]: print(v['key'], v['msg'])
            if vs:
                print('VIOLATION property=%s replay=%s' % (pid, args[args.index('--replay') + 1]))
                return 1
            print('not reproduced')
            return 0
        tasks = []
        for b in bins:
            n = b.get('shards', 8)
            if isinstance(n, dict): n = n[tier]
            for s in range(n): tasks.append((b, s, n))
        par = chk.get('parallel', JOBS)
        tmo = chk.get('timeout', {}).get(tier, 800 if tier == 'quick' else 4 * 3600)
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(lambda t: run_shard(exes[t[0]['name']], t[0], tier, t[1], t[2], work, known, timeout=tmo), tasks))
        # gather
        found = []
        undecided = []
        for (b, s, n), d in zip(tasks, res):
            if d['timeout'] and not d['violations']:
                undecided.append((b['name'], s)); continue
            vs = viols_of(d)
            if vs: found.append((b, s, n, d, vs))
        confirmed = []
        for b, s, n, d, vs in found[:6]:
            if len(confirmed) >= 3: break
            unit = vs[0]['unit']
            ok = False; by_unit = False
            if unit not in ('?', '(start)', ''):
                d2 = run_shard(exes[b['name']], b, tier, s, n, work, known, only=unit)
                ok = by_unit = bool(viols_of(d2)) and not d2['timeout']
            if not ok:
                for _ in range(2):
                    d2 = run_shard(exes[b['name']], b, tier, s, n, work, known)
                    if viols_of(d2) and not d2['timeout']: ok = True; break
            if ok: confirmed.append((b, s, n, vs, unit, by_unit))
            else: print('note: not reproduced, dropped: %s %s' % (b['name'], vs[0]['msg'][:300]))
        known_hit = sorted(set(k for d in res for k in d['known_hit']))
        cov = dict(states=sum(d['states'] for d in res), transitions=sum(d['transitions'] for d in res),
                   traces_validated_against_impl=sum(d['traces'] or d['transitions'] for d in res),
                   samples=[], exhaustive=not found and not undecided, bounds=chk.get('bounds', ''),
                   builds=[dict(name=b['name'], flags=' '.join(b.get('flags', []) + ['-U' + u for u in b.get('undef', [])])) for b in bins],
                   rule=chk.get('rule', ''))
        secs = {}
        for d in res:
            for x in d['samples']:
                if len(cov['samples']) < 40 and x not in cov['samples']: cov['samples'].append(x)
            for k, (a, c) in d['sections'].items():
                g = d['bin'] + '/' + k.split('|')[0].strip()
                e = secs.setdefault(g, [0, 0, 0]); e[0] += a; e[1] += c; e[2] += 1
        if len(secs) > 200: secs = dict(list(secs.items())[:200])
        cov['sections_states_transitions_units'] = secs
        notes = sorted(set(x for d in res for x in d['notes']))
        if notes: cov['notes'] = notes[:60]
        if not cov['samples']: cov['samples'] = ['(none)']
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2),
                  violations=len(confirmed), assumptions=chk.get('assumptions', []))
        os.makedirs(HERE + '/evidence', exist_ok=True)
        with open(HERE + '/evidence/%s.json.tmp' % pid, 'w') as f: json.dump(ev, f, indent=1)
        os.rename(HERE + '/evidence/%s.json.tmp' % pid, HERE + '/evidence/%s.json' % pid)
        for k in known_hit: print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        slow = max(res, key=lambda d: d['wall']) if res else None
        print('%s %s: build %.1fs, %d shards, states=%d transitions=%d, slowest shard %s/%s %.1fs, wall %.1fs' %
              (pid, tier, tb, len(tasks), cov['states'], cov['transitions'], slow and slow['bin'], slow and slow['shard'], slow['wall'] if slow else 0, time.time() - t0))
        if confirmed:
            os.makedirs(HERE + '/replays', exist_ok=True)
            b, s, n, vs, unit, by_unit = confirmed[0]
            path = HERE + '/replays/%s-%s.json' % (pid, hashlib.md5((b['name'] + unit + vs[0]['key']).encode()).hexdigest()[:8])
            json.dump(dict(property=pid, tier=tier, bin=b['name'], shard=s, nshards=n, unit=unit, by_unit=by_unit, violations=vs[:20],
                           replay_cmd='python3 %s/run.py %s %s --replay %s' % (HERE, pid, tier, path)), open(path, 'w'), indent=1)
            for bb, _, _, v, _, _ in confirmed:
                for x in v[:4]: print('  %s: %s: %s' % (bb['name'], x['key'], x['msg'][:400]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if undecided:
            print('UNDECIDED: shards ran out of time: %s' % undecided)
            return 2
        if cov['transitions'] == 0:
            print('nothing explored'); return 2
        return 0
    finally:
        if '--keep' not in args: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        code = main()
    except Exception:
        import traceback; traceback.print_exc(); code = 2
    sys.exit(code)
