"""Runs a check: builds, spreads the cases over worker processes, decides, writes the evidence."""
import collections
import glob
import importlib
import json
import os
import random
import queue
import shutil
import subprocess
import sys
import threading
import time

from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
NPROC = int(os.environ.get('QMON_JOBS', '8'))
# seconds of further exploration (other violations may be more telling) after the first one of a quick run
AFTER_VIOLATION = float(os.environ.get('QMON_AFTER_VIOLATION', '20'))


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#') or not line.startswith('{'):
                continue
            d = json.loads(line)
            if d.get('property') == pid and d.get('status') == 'open':
                out.append(d)
    return out


def worker_env(variant, build_dir, extra):
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'LD_PRELOAD', 'MALLOC_PERTURB_'):
        env.pop(k, None)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', OMP_DYNAMIC='FALSE', OPENBLAS_CORETYPE=os.environ.get('OPENBLAS_CORETYPE', 'Haswell'))
    if 'OPENBLAS_CORETYPE' not in os.environ:
        env.pop('OPENBLAS_CORETYPE')
    if variant == 'asan':
        libs = []
        for n in ('libasan.so', 'libubsan.so'):
            libs.append(subprocess.check_output(['gcc', '-print-file-name=' + n], text=True).strip())
        env['LD_PRELOAD'] = ':'.join(libs)
        env['ASAN_OPTIONS'] = ('detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:'
                               'allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=203:'
                               'max_free_fill_size=1073741824:free_fill_byte=171:'
                               'detect_stack_use_after_return=0:handle_segv=1')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        env['PYTHONMALLOC'] = 'malloc'
    elif variant == 'tsan':
        lib = subprocess.check_output(['gcc', '-print-file-name=libtsan.so'], text=True).strip()
        env['LD_PRELOAD'] = lib + ':' + os.path.join(build_dir, 'libgompshim.so')
        env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_signal_unsafe=0:log_path=%s'
        env['PYTHONMALLOC'] = 'malloc'
    env.update(extra or {})
    return env


class Worker(object):

    def __init__(self, pid, variant, build_dir, tier, extra, wid):
        env = worker_env(variant, build_dir, extra)
        self.errpath = os.path.join(build.CACHE, 'err-%d-%s-%s' % (os.getpid(), variant, wid))
        self.errf = open(self.errpath, 'w+')
        cmd = [build.PY, os.path.join(VERIF, 'qmon', 'worker.py'), pid, build_dir, variant, tier]
        if variant == 'tsan':
            # TSan needs a non-randomised address space on some kernels
            if shutil.which('setarch') and subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0:
                cmd = ['setarch', '-R'] + cmd
            self.tsanlog = self.errpath + '.tsan'
            env['TSAN_OPTIONS'] = env['TSAN_OPTIONS'] % self.tsanlog
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  text=True, env=env, cwd=VERIF)
        self.q = queue.Queue()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()
        hello = self.get(300)
        if hello is None or hello.get('error'):
            raise RuntimeError('worker did not start: %r\n%s' % (hello, self.stderr()))

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                pass
        self.q.put(None)

    def get(self, timeout):
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            return 'timeout'

    def send(self, case):
        self.p.stdin.write(json.dumps(case) + '\n')
        self.p.stdin.flush()

    def stderr(self, n=3500):
        self.errf.flush()
        try:
            s = open(self.errpath, errors='replace').read()
        except OSError:
            return ''
        i = s.find('==ERROR')
        j = s.find('runtime error')
        k = min([x for x in (i, j) if x >= 0], default=-1)
        if k >= 0:
            return s[max(0, k - 200):k + n]
        return s[-n:]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=30)
        except Exception:
            pass
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.errf.close()
        for p in [self.errpath]+glob.glob(self.errpath+'.tsan.*'):
            try:
                os.remove(p)
            except OSError:
                pass


def run_group(pid, variant, extra, cases, tier, results, case_timeout, nproc, deadline, known=()):
    # deadline: [time], common to all groups; brought forward once a violation was seen
    build_dir = build.ensure(variant)
    # mixed, so that every kind of case gets its share when the time runs out
    mixed = list(cases)
    random.Random(len(mixed)).shuffle(mixed)
    todo = collections.deque(mixed)
    lock = threading.Lock()
    fatal = []

    def loop(wid):
        w = None
        while True:
            with lock:
                if not todo or fatal:
                    break
                if time.time() > deadline[0]:
                    while todo:
                        results[todo.popleft()['_id']] = dict(status='skipped', why='deadline')
                    break
                case = todo.popleft()
            try:
                if w is None:
                    w = Worker(pid, variant, build_dir, tier, extra, wid)
                w.send(case)
                r = w.get(case_timeout)
            except (RuntimeError, OSError) as e:
                if isinstance(e, RuntimeError):
                    fatal.append(str(e))
                    break
                r = None
            if r == 'timeout':
                r = dict(status='inconclusive', why='case timeout', events={}, keys=[], violations=[])
                w.p.kill()
                w.close()
                w = None
            elif r is None:
                w.p.wait()
                rc = w.p.returncode
                txt = w.stderr()
                w.close()
                w = None
                kind = 'crash'
                if 'AddressSanitizer' in txt:
                    kind = 'asan'
                elif 'runtime error' in txt:
                    kind = 'ubsan'
                r = dict(status='ok', events={'worker-crash': 1}, keys=[],
                         violations=[dict(kind=kind, sig='rc=%s' % rc, detail=txt[:3000], ctx='')])
            results[case['_id']] = r
            if tier == 'quick' and any((v['kind'], v['sig']) not in known for v in r.get('violations', [])):
                deadline[0] = min(deadline[0], time.time() + AFTER_VIOLATION)
        if w is not None:
            w.close()

    ths = [threading.Thread(target=loop, args=(i,)) for i in range(min(nproc, max(1, len(cases))))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if fatal:
        raise RuntimeError(fatal[0])


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv.pop(0).upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    while argv:
        a = argv.pop(0)
        if a == '--tier':
            tier = argv.pop(0)
        elif a == '--replay':
            replay = argv.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, VERIF)
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = mod.cases(tier, seed)
    for i, c in enumerate(cases):
        c['_id'] = i
    groups = collections.OrderedDict()
    for c in cases:
        k = (c.get('_variant', 'plain'), json.dumps(c.get('_env', {}), sort_keys=True), c.get('_nproc', 0))
        groups.setdefault(k, []).append(c)
    results = {}
    budget = float(os.environ.get('QMON_BUDGET', getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 36000)))
    deadline = [t0 + budget]
    known = {(k['kind'], k.get('sig', '')) for k in load_known(pid)}
    try:
        for (variant, env, nproc), cs in groups.items():
            run_group(pid, variant, json.loads(env), cs, tier, results,
                      getattr(mod, 'CASE_TIMEOUT', 240), nproc or NPROC, deadline, known)
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    except RuntimeError as e:
        print('HARNESS FAILED\n' + str(e))
        return 2
    return finish(mod, pid, tier, seed, cases, results, t0, replay)


def finish(mod, pid, tier, seed, cases, results, t0, replay):
    events = collections.Counter()
    keys = set()
    worst = {}
    status = collections.Counter()
    viols = []
    errors = []
    why = collections.Counter()
    samples = []
    distinct_cases = set()
    bykind = collections.Counter()
    tmax = 0
    for c in cases:
        r = results.get(c['_id'], dict(status='skipped', why='not run'))
        status[r['status']] += 1
        tmax = max(tmax, r.get('t', 0))
        if r['status'] in ('inconclusive', 'skipped'):
            why[r.get('why', '')[:120]] += 1
        if r['status'] == 'error':
            errors.append((c, r.get('why')))
        for k, n in r.get('events', {}).items():
            events[k] += n
        keys.update(r.get('keys', []))
        for k, v in r.get('worst', {}).items():
            if v > worst.get(k, (0, None))[0]:
                worst[k] = (v, c['_id'])
        if r.get('keys') and r['status'] == 'ok':
            distinct_cases.add(json.dumps({k: v for k, v in c.items() if not k.startswith('_id')}, sort_keys=True))
            bykind[c.get('kind', 'case')] += 1
        for v in r.get('violations', []):
            viols.append((c, v))
        if len(samples) < 6 and r.get('keys') and (c.get('kind') not in [s.get('case', {}).get('kind') for s in samples]):
            samples.append(dict(case={k: v for k, v in c.items()}, observed=r.get('keys', [])[:3],
                                notes=r.get('notes', [])[:1]))
    known = load_known(pid)
    new = []
    hits = collections.Counter()
    for c, v in viols:
        m = None
        for i, k in enumerate(known):
            if k['kind'] == v['kind'] and k.get('sig', '') == v['sig']:
                m = i
                break
        if m is None:
            new.append((c, v))
        else:
            hits[m] += 1
    for i, k in enumerate(known):
        if not replay:
            print('KNOWN-FINDING: property=%s %s [seen %d times in this run]' % (pid, k['what'], hits[i]))
    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for c, v in new:
            tag = (v['kind'], v['sig'])
            if tag in seen:
                continue
            seen.add(tag)
            path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, v['kind'].replace('/', '_').replace(' ', '_')[:60], c['_id']))
            if not replay:
                with open(path, 'w') as f:
                    json.dump(dict(property=pid, case=c, violation=v), f, indent=1)
            else:
                path = replay
            print('  %s [%s] %s %s' % (v['kind'], v['sig'], v.get('ctx', ''), v['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if len(seen) >= 8:
                break
        rc = 1
    nrun = status['ok']
    total = len(cases)
    req = getattr(mod, 'REQUIRED', {}).get(tier, {}) if not replay else {}
    missing = {k: (events.get(k, 0), n) for k, n in req.items() if events.get(k, 0) < n}
    if rc == 0 and errors:
        print('HARNESS ERROR in %d cases, first:\n%s\n%s' % (len(errors), json.dumps(errors[0][0]), errors[0][1]))
        rc = 2
    if rc == 0 and missing:
        print('INCONCLUSIVE: required observations missing: %r' % missing)
        rc = 2
    # What was left out for want of time is judged by the required observations
    begun = total - status['skipped']
    if rc == 0 and not replay and nrun < 0.6 * begun:
        print('INCONCLUSIVE: only %d of %d cases gave a verdict (%r)' % (nrun, begun, why.most_common(4)))
        rc = 2
    wall = time.time() - t0
    if not replay:
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=total, distinct_nontrivial=len(distinct_cases), rule=mod.RULE,
                                samples=samples or [dict(case=cases[0])],
                                events=dict(sorted(events.items())), distinct_observations=len(keys),
                                cases_by_kind=dict(bykind), status=dict(status),
                                inconclusive_reasons=dict(why.most_common(5)),
                                worst_error_over_tolerance={k: round(v[0], 6) for k, v in sorted(worst.items())}),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%d cases=%d %r observations=%d violations=%d (known %d) slowest=%.1fs wall=%.1fs' % (
        pid, tier, seed, total, dict(status), len(keys), len(new), sum(hits.values()), tmax, wall))
    if os.environ.get('QMON_VERBOSE'):
        print('events', dict(events))
        print('worst', {k: ('%.3g' % v[0], v[1]) for k, v in sorted(worst.items(), key=lambda kv: -kv[1][0])[:15]})
        print('why', dict(why))
        cnt = collections.Counter((v['kind'], v['sig']) for _, v in new)
        print('violation kinds', dict(cnt))
        slow = sorted(((r.get('t', 0), i) for i, r in results.items()), reverse=True)[:5]
        print('slow', [(t, cases[i]) for t, i in slow])
    return rc
