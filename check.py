#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run the check of one property
   check.py --build                        build every driver (warms build/)
   check.py --replay <file>                run the command of a replay file again

Builds the drivers from /repo's current working tree, runs them under the
sanitizers and monitors, rewrites evidence/<property>.json.
Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it
does not. Exit 2: no answer (for example the drivers do not compile)."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from jobs import PROPS, LEVELS, RULES, ASSUME

NCPU = os.cpu_count() or 8
QUICK, THOROUGH = 3, 30   # cases of a tier: q of the job times this
SAN = {
 # name: (compiler, flags)
 'asan':   ('clang++', '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'),
 'nosse':  ('clang++', '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DGTL_HAVE_SSE2=0 -DGTL_HAVE_SSSE3=0'),
 'ssse3':  ('clang++', '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -mssse3 -DGTL_NON_DETERMINISTIC'),
 'gasan':  ('g++',     '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'),
 'ndebug': ('g++',     '-O2 -g1 -DNDEBUG'),
 'tsan':   ('clang++', '-O1 -g1 -fsanitize=thread'),
 'tsannd': ('clang++', '-O2 -g1 -fsanitize=thread -DNDEBUG'),
}
ENV = dict(os.environ,
  ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1',
  UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
  TSAN_OPTIONS='halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:detect_deadlocks=%s' % os.environ.get('TSAN_DL','1'))
ENV.pop('TRACE', None)

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, 'include'), os.path.join(HERE, 'h')):
            for d, dn, fn in sorted(os.walk(base)):
                dn.sort()
                for f in sorted(fn):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b'\0')
                    h.update(open(p, 'rb').read() + b'\0')
        _tree = h.hexdigest()
    return _tree

def binary(job):
    cc, fl = SAN[job['san']]
    key = hashlib.sha256((tree_hash() + cc + fl + job['src'] + job.get('defs', '') + job.get('extra', '')).encode()).hexdigest()[:20]
    return os.path.join(BUILD, '%s-%s-%s' % (job['src'].replace('.cpp', ''), job['san'], key))

_locks = {}; _ll = threading.Lock()
def build(job):
    out = binary(job)
    with _ll:
        lk = _locks.setdefault(out, threading.Lock())
    with lk:
        if os.path.exists(out):
            return out, None
        cc, fl = SAN[job['san']]
        tmp = out + '.tmp%d' % os.getpid()
        cmd = [cc, '-std=c++20', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'h'), '-w', '-pthread'] + fl.split() \
            + job.get('defs', '').split() + ['-DVF_SALT=%dull' % int(hashlib.sha256((job['san'] + job['src'] + job.get('defs', '')).encode()).hexdigest()[:12], 16)] + [os.path.join(HERE, 'h', job['src'])] + ['-o', tmp] + job.get('extra', '').split()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if os.path.exists(tmp): os.unlink(tmp)
            return None, ' '.join(cmd) + '\n' + p.stdout[-6000:]
        os.rename(tmp, out)
        return out, None

def compiler_works():
    d = tempfile.mkdtemp(prefix='vf')
    try:
        open(os.path.join(d, 'a.cpp'), 'w').write('#include <map>\n#include <mutex>\n#include <thread>\nint main() { std::map<int, int> m; std::mutex x; std::thread t([&] { std::lock_guard l(x); m[1] = 2; }); t.join(); return 0; }\n')
        return all(subprocess.run([cc, '-std=c++20', '-pthread', '-w'] + fl.split() + [os.path.join(d, 'a.cpp'), '-o', os.path.join(d, 'a')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 for cc, fl in SAN.values())
    finally:
        shutil.rmtree(d, ignore_errors=True)

def prune():
    """keep build/ small: drop binaries of other trees"""
    try:
        ents = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        ents = [e for e in ents if os.path.isfile(e)]
        if sum(os.path.getsize(e) for e in ents) > 6 << 30:
            ents.sort(key=os.path.getmtime)
            for e in ents[:len(ents) // 2]: os.unlink(e)
    except OSError: pass

def run_bin(cmd, scratch, timeout, env=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(env or ENV, VERIF_SCRATCH=scratch), cwd=scratch, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout); to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); to = True
    return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), to, time.time() - t0

def classify(rc, out, err, to):
    """-> (kind, key, msg): kind in ok, viol, hang, unknown"""
    m = re.search(r'@VIOL key=(\S+) case=(\d+) msg=(.*)', out)
    if m: return 'viol', m.group(1), m.group(3), int(m.group(2))
    if '@HANG' in out or rc == 78:
        m = re.search(r'@HANG case=(\d+)', out)
        return 'hang', 'hang', 'a case made no progress', int(m.group(1)) if m else -1
    if to: return 'timeout', 'timeout', 'time limit', -1
    if rc == 0 and '@DONE' in out: return 'ok', '', '', -1
    m = re.search(r'(ERROR|WARNING|SUMMARY): (AddressSanitizer|LeakSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer)[: ]+(.*)', err)
    if m: return 'viol', (m.group(2) + ':' + re.sub(r'\W+', '-', m.group(3))[:60]), m.group(0)[:300], -1
    m = re.search(r'runtime error: (.*)', err)
    if m: return 'viol', 'ubsan', m.group(0)[:300], -1
    m = re.search(r"Assertion [`'](.*)' failed", err)
    if m: return 'viol', 'assertion', m.group(0)[:300], -1
    if rc in (-11, -6, -8, -4, -7): return 'viol', 'signal%d' % -rc, 'killed by signal %d: %s' % (-rc, err.strip()[-300:]), -1
    if 'terminate called' in err: return 'viol', 'terminate', err.strip()[-300:], -1
    return 'unknown', 'rc%d' % rc, err.strip()[-400:], -1

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == '--build':
        prune()
        jobs = [j for p in PROPS for j in PROPS[p]]
        bad = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (o, e) in ex.map(build, jobs):
                if e: print(e, file=sys.stderr); bad = 1
        return 2 if bad else 0
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        o, e = build(r['job'])
        if e: print(e); return 2
        d = tempfile.mkdtemp(prefix='vf')
        for _ in range(r.get('attempts', 1)):
            rc, out, err, to, dt = run_bin([o] + r['args'], d, 900, dict(ENV, TRACE='1') if r.get('trace') else ENV)
            if rc != 0: break
        sys.stdout.write(out[-6000:] + err[-12000:])
        shutil.rmtree(d, ignore_errors=True)
        return 1 if rc else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (600 if tier == 'quick' else 3000)
    if os.environ.get('VERIF_DEADLINE'): deadline = t0 + float(os.environ['VERIF_DEADLINE'])
    prune()
    jobs = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='vf')
    try:
        return do_check(prop, tier, seed, t0, deadline, jobs, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def do_check(prop, tier, seed, t0, deadline, jobs, scratch):
    known = json.load(open(os.path.join(HERE, 'known-findings.json')))
    fails = []       # (job, args, kind, key, msg, log)
    stats = {}; samples = []; hashes = set(); nhash = 0; findings = {}
    skipped = 0; inconclusive = []
    lock = threading.Lock(); stop = threading.Event()
    build_err = []
    per_driver = {}

    def shard_args(job, a, b, tag):
        d = os.path.join(scratch, tag); os.makedirs(d, exist_ok=True)
        return d, [job['mode'], str(seed), str(a), str(b), os.path.join(d, 'progress'), os.path.join(d, 'hashes')]

    def run_shard(job, a, b, tag):
        nonlocal skipped, nhash
        if stop.is_set() or time.time() > deadline:
            with lock: skipped += 0 if stop.is_set() else 1
            return
        o, e = build(job)
        if e:
            with lock: build_err.append(e)
            return
        d, args = shard_args(job, a, b, tag)
        rc, out, err, to, dt = run_bin([o] + args, d, max(60, deadline - time.time() + 120))
        kind, key, msg, case = classify(rc, out, err, to)
        if kind in ('viol', 'hang', 'unknown') and case < 0:
            try: case = struct.unpack('<Q', open(args[4], 'rb').read(8))[0]
            except Exception: case = a
        if kind in ('hang', 'unknown'):
            # run once more before reporting
            d2, args2 = shard_args(job, case if case >= 0 else a, (case + 1) if case >= 0 else b, tag + 'r')
            rc2, out2, err2, to2, dt2 = run_bin([o] + args2, d2, 400)
            k2 = classify(rc2, out2, err2, to2)
            if k2[0] in ('ok', 'timeout', 'unknown'):
                # for concurrent drivers try the whole shard again, too
                d3, args3 = shard_args(job, a, b, tag + 's')
                rc2, out2, err2, to2, dt2 = run_bin([o] + args3, d3, 600)
                k2 = classify(rc2, out2, err2, to2)
            if k2[0] in ('viol', 'hang'):
                kind, key, msg = k2[0], k2[1], k2[2]; out, err = out2, err2
            else:
                with lock: inconclusive.append('%s %s [%d,%d): %s %s (not repeated)' % (os.path.basename(o), job['mode'], a, b, kind, msg[:200]))
                if k2[0] == 'ok': out, err, kind = out2, err2, 'ok'
                else: return
        if kind == 'timeout':
            with lock: skipped += 1
            return
        with lock:
            for m in re.finditer(r'@FINDING key=(\S+) msg=(.*)', out): findings[m.group(1)] = (m.group(2), job, args)
            if kind == 'ok':
                for m in re.finditer(r'@STAT (\S+) (\d+)', out):
                    k, v = m.group(1), int(m.group(2))
                    if k.startswith('max_'): stats[k] = max(stats.get(k, 0), v)
                    else: stats[k] = stats.get(k, 0) + v
                nm = '%s%s/%s/%s' % (job['src'], ' ' + job['defs'] if job.get('defs') else '', job['san'], job['mode'])
                per_driver[nm] = per_driver.get(nm, 0) + (b - a)
                for m in re.finditer(r'@SAMPLE (.*)', out):
                    if len([1 for s in samples if s.startswith(nm)]) < 1 and len(samples) < 12: samples.append(nm + ' ' + m.group(1)[:700])
                try:
                    hb = open(args[5], 'rb').read()
                    hs = struct.unpack('<%dQ' % (len(hb) // 8), hb); hashes.update((nm, x) for x in hs if x); nhash += len(hs)
                except OSError: pass
            else:
                fails.append((job, [job['mode'], str(seed), str(case), str(case + 1)] if not job.get('conc') else [job['mode'], str(seed), str(a), str(b)], kind, key, msg, (out[-3000:] + '\n--- stderr\n' + err[:9000])))
                stop.set()
        shutil.rmtree(d, ignore_errors=True)

    shards = []
    for ji, job in enumerate(jobs):
        n = job['q'] if job['q'] == 1 else job['q'] * (QUICK if tier == 'quick' else THOROUGH)
        per = max(1, min(job.get('shard', 1 << 30), (n + job.get('split', 4) - 1) // job.get('split', 4)))
        if tier != 'quick': per = max(1, min(per, job['q'] * QUICK))
        for a in range(0, n, per):
            shards.append((job, a, min(n, a + per), 'j%d_%d' % (ji, a)))
    # interleave the jobs so that their first compilation happens in parallel
    shards.sort(key=lambda s: (s[1] // max(1, (s[2] - s[1])), jobs.index(s[0])))
    workers = max(1, NCPU // max(j.get('threads', 1) for j in jobs)) if any(j.get('threads') for j in jobs) else NCPU
    with cf.ThreadPoolExecutor(NCPU) as ex:
        uniq = {}
        for j in jobs: uniq.setdefault(binary(j), j)
        for o, e in ex.map(build, list(uniq.values())):
            if e: build_err.append(e)
    if build_err and os.environ.get('VERIF_BUILD_VIOL', '1') == '1' and compiler_works() and re.search(r'error: ', build_err[0]):
        # the drivers use documented, public interfaces only: a tree in which they do not compile lost one of them
        rep = os.path.join(HERE, 'replay'); os.makedirs(rep, exist_ok=True)
        p = os.path.join(rep, '%s-compile.json' % prop)
        json.dump({'property': prop, 'key': 'does-not-compile', 'log': build_err[0], 'job': jobs[0], 'args': []}, open(p, 'w'), indent=1)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': LEVELS.get(prop, 'exploration'), 'coverage': {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': RULES['*'], 'samples': ['(the drivers do not compile)']},
                   'assumptions': ASSUME.get(prop, []) + ASSUME['*'], 'wall_s': round(time.time() - t0, 2), 'violations': 1}, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  does-not-compile: ' + (re.search(r'.*error: .*', build_err[0]).group(0))[:300])
        return 1
    if build_err:
        print('check %s: the drivers do not compile against this tree\n%s' % (prop, build_err[0]), file=sys.stderr)
        return 2
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda s: run_shard(*s), shards))

    viol = 0
    kf = {k['key']: k for k in known.get('findings', []) if k['property'] == prop}
    rep = os.path.join(HERE, 'replay'); os.makedirs(rep, exist_ok=True)
    def report(job, args, key, msg, log):
        p = os.path.join(rep, '%s-%s.json' % (prop, hashlib.sha256((key + msg).encode()).hexdigest()[:10]))
        json.dump({'property': prop, 'job': job, 'args': args, 'seed': seed, 'key': key, 'message': msg, 'log': log,
                   'trace': not job.get('conc'), 'attempts': 20 if job.get('conc') else 1,
                   'how': 'python3 check.py --replay <this file>'}, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s: %s' % (key, msg))
    for key, (msg, job, args) in sorted(findings.items()):
        if key in kf: print('KNOWN-FINDING: property=%s %s' % (prop, kf[key]['what']))
        else: viol += 1; report(job, args[:4], key, msg, '')
    for job, args, kind, key, msg, log in fails[:5]:
        viol += 1; report(job, args, key, msg, log)

    ev = dict(stats)
    cases = ev.pop('cases', 0)
    coverage = {'evaluations': cases, 'distinct_nontrivial': len(hashes), 'rule': RULES.get(prop, RULES['*']),
                'samples': samples or ['(none: no shard finished)'], 'observed': ev, 'cases_per_driver': per_driver,
                'skipped_shards': skipped, 'inconclusive': inconclusive,
                'known_findings_seen': sorted(k for k in findings if k in kf)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': LEVELS.get(prop, 'exploration'), 'coverage': coverage,
               'assumptions': ASSUME.get(prop, []) + ASSUME['*'], 'wall_s': round(time.time() - t0, 2), 'violations': viol},
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if viol: return 1
    if cases == 0:
        print('check %s: no case was executed: %s' % (prop, inconclusive), file=sys.stderr); return 2
    print('check %s (%s): held on %d cases (%d distinct), %s; %.1f s' % (prop, tier, cases, len(hashes), ', '.join('%s=%d' % kv for kv in sorted(ev.items())[:12]), time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
