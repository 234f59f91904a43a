"""Property-based search: generation, execution, shrinking, evidence.

The driver (this file) generates cases with Hypothesis and hands each one to
an executor process (child.py) that runs the real library and the oracle.  A
case that kills or hangs the executor is a failing case like any other.  The
shrunk failing case is replayed in fresh processes before it is reported.
"""
import fcntl
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import build as vbuild           # noqa: E402

CPU_LIMIT = 60       # seconds of CPU for one case
WALL_LIMIT = 150     # seconds without CPU use or answer for one case
PER_CHILD = 400      # cases before the executor is renewed
N_WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load_prop(pid):
    return importlib.import_module('vlib.props.' + pid.lower())


def child_env(libdir, scratch, flavour, shim=True):
    env = {k: v for k, v in os.environ.items()
           if k not in ('PYTHONPATH', 'LD_PRELOAD')}
    env.update(PYTHONPATH=':'.join([libdir, vbuild.REPO, VERIF]),
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONHASHSEED='0', LC_ALL='C.UTF-8', HOME=scratch,
               MPLCONFIGDIR=scratch, VERIF_SCRATCH=scratch,
               VERIF_LIBDIR=libdir)
    if shim:
        env['PATH'] = os.path.join(VERIF, 'vlib', 'shim') + ':' + env['PATH']
    if flavour == 'asan':
        # with libstdc++, for the sanitizer to find __cxa_throw
        env['LD_PRELOAD'] = ' '.join(os.path.realpath(
            subprocess.check_output(['g++', '-print-file-name=' + lib])
            .decode().strip()) for lib in ('libasan.so', 'libstdc++.so'))
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:'
                               'allocator_may_return_null=1:'
                               'detect_stack_use_after_return=0')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    return env


class Child:
    """One executor process."""

    def __init__(self, pid, libdir, flavour):
        self.pid, self.libdir, self.flavour = pid, libdir, flavour
        self.proc = None
        self.history = []

    def start(self):
        self.scratch = tempfile.mkdtemp(prefix='verif-')
        self.err = open(os.path.join(self.scratch, 'stderr'), 'w+b')
        self.proc = subprocess.Popen(
            ['/usr/bin/python3', os.path.join(VERIF, 'vlib', 'child.py'),
             self.pid],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            cwd=self.scratch, start_new_session=True,
            env=child_env(self.libdir, self.scratch, self.flavour,
                          not getattr(load_prop(self.pid), 'REAL_CXX', False)))
        self.buf = b''
        self.history = []
        self.served = 0

    def stop(self):
        if self.proc is None:
            return
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()
        self.proc.stdin.close()
        self.proc.stdout.close()
        self.err.close()
        shutil.rmtree(self.scratch, ignore_errors=True)
        self.proc = None

    def _cpu(self):
        try:
            with open('/proc/%d/stat' % self.proc.pid) as fh:
                f = fh.read().rsplit(')', 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            return 0.

    def _tail(self):
        try:
            self.err.flush()
            with open(os.path.join(self.scratch, 'stderr'), 'rb') as fh:
                txt = fh.read().decode(errors='replace')
        except OSError:
            return ''
        m = re.search(r'(==\d+==ERROR.*|runtime error.*)', txt)
        if m:
            return txt[m.start():m.start() + 600]
        return txt[-300:]

    def run(self, sub, case):
        if self.proc is not None and self.served >= PER_CHILD:
            self.stop()
        if self.proc is None:
            self.start()
        self.served += 1
        self.history.append([sub, case])
        try:
            self.proc.stdin.write(
                (json.dumps({'sub': sub, 'case': case}) + '\n').encode())
            self.proc.stdin.flush()
        except OSError:
            pass
        cpu0, t0 = self._cpu(), time.time()
        last_cpu, last_t = cpu0, t0
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], 1.0)
            if r:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    self.proc.wait()
                    code, tail = self.proc.returncode, self._tail()
                    hist = self.history
                    self.stop()
                    return {'ok': False, 'died': True, 'history': hist,
                            'msg': 'the process was ended (status %s) %s'
                            % (code, tail)}
                self.buf += chunk
                continue
            cpu = self._cpu()
            if cpu > last_cpu + .05:
                last_cpu, last_t = cpu, time.time()
            hang = cpu - cpu0 > CPU_LIMIT
            if hang or time.time() - last_t > WALL_LIMIT:
                hist = self.history
                self.stop()
                return {'ok': False, 'died': True, 'hang': True,
                        'history': hist,
                        'msg': 'no answer after %.0f s of CPU time'
                        % (cpu - cpu0)}
        line, self.buf = self.buf.split(b'\n', 1)
        res = json.loads(line.decode())
        if not res['ok']:
            res['history'] = list(self.history)
        return res


class Stop(BaseException):
    pass


class Worker:
    def __init__(self, pid, wid, seed, tier, budget, libdir, flavour, queue):
        self.pid, self.wid, self.seed, self.tier = pid, wid, seed, tier
        self.budget, self.libdir, self.flavour = budget, libdir, flavour
        self.queue = queue
        self.count, self.nontrivial = 0, set()
        self.labels, self.samples, self.per_sub = {}, [], {}
        self.failure = None

    def note(self, sub, case, res):
        self.count += 1
        self.per_sub[sub] = self.per_sub.get(sub, 0) + 1
        for lab in res.get('labels', ()):
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if res.get('nt'):
            txt = json.dumps([sub, case], sort_keys=True)
            h = hashlib.md5(txt.encode()).digest()[:8]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(txt) < 900 and len(self.samples) < 40 and \
                        sum(s[0] == sub for s in self.samples) < 2:
                    self.samples.append([sub, case])

    def one_round(self, sub, strategy, seed, n, deadline):
        import hypothesis
        from hypothesis import given, settings, Phase, HealthCheck, Verbosity
        self.best = None
        self.shrink_until = None
        self.in_round = 0

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False,
                  verbosity=Verbosity.quiet)
        @given(strategy)
        def test(case):
            now = time.time()
            if self.best is None and now > deadline:
                return
            self.in_round += 1
            if self.best is not None and now > self.shrink_until:
                raise Stop()
            res = self.child.run(sub, case)
            self.note(sub, case, res)
            if not res['ok']:
                size = len(json.dumps(case))
                if self.best is None:
                    self.shrink_until = now + (
                        20 if self.tier == 'quick' else 120)
                if self.best is None or size <= self.best[0]:
                    self.best = (size, case, res)
                if res.get('hang'):
                    raise Stop()
                raise AssertionError(res['msg'])
        try:
            test()
        except Stop:
            pass
        except Exception as e:      # AssertionError, Flaky, group
            if self.best is None:
                raise RuntimeError('generator of %s failed: %s' % (
                    sub, traceback.format_exc())) from e
        if self.best is not None:
            self.failure = {'sub': sub, 'case': self.best[1],
                            'msg': self.best[2]['msg'],
                            'history': self.best[2].get('history', [])}

    def run(self):
        prop = load_prop(self.pid)
        self.child = Child(self.pid, self.libdir, self.flavour)
        try:
            self._run(prop)
        finally:
            self.child.stop()

    def _run(self, prop):
        t0 = time.time()
        deadline = t0 + self.budget
        # fixed cases first: regression inputs and small exhaustive spaces
        fixed = list(getattr(prop, 'fixed', lambda tier: [])(self.tier))
        fixed += regressions(self.pid)
        for k, (sub, case) in enumerate(fixed):
            if k % N_WORKERS != self.wid:
                continue
            if time.time() > deadline + self.budget:
                break
            res = self.child.run(sub, case)
            self.note(sub, case, res)
            if not res['ok']:
                self.failure = {'sub': sub, 'case': case, 'msg': res['msg'],
                                'history': res.get('history', [])}
                return
        subs = prop.SUBS
        names = sorted(subs)
        strategies = {s: subs[s][0]() for s in names}
        wsum = float(sum(subs[s][1] for s in names))
        spent = {s: 0. for s in names}
        done = {s: 0 for s in names}
        rounds = getattr(prop, 'ROUND', {})
        # on a busy machine, a few cases of everything all the same
        least = {s: min(10, rounds.get(s, 10)) for s in names}
        rnd = 0
        while True:
            late = time.time() > deadline
            if late and (time.time() > deadline + 2*self.budget or
                         all(done[s] >= least[s] for s in names)):
                break
            # the sub-check that is furthest behind its share of the time
            sub = min(names, key=lambda s: (done[s] >= least[s],
                                            spent[s] * wsum / subs[s][1],
                                            (names.index(s) + self.wid)
                                            % len(names)))
            n = rounds.get(sub, 100)
            t = time.time()
            # a first short look at everything, then rounds
            if done[sub] < least[sub]:
                n, end = least[sub], t + self.budget
            else:
                end = min(deadline, t + max(3, self.budget/len(names)))
            seed = int(hashlib.md5(('%d/%d/%d/%s' % (
                self.seed, self.wid, rnd, sub)).encode()).hexdigest()[:12], 16)
            self.one_round(sub, strategies[sub], seed, n, end)
            spent[sub] += time.time() - t
            done[sub] += max(1, self.in_round)
            rnd += 1
            if self.failure:
                return


def regressions(pid):
    d = os.path.join(VERIF, 'regress', pid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.json'):
                with open(os.path.join(d, f)) as fh:
                    r = json.load(fh)
                out.append((r['sub'], r['case']))
    return out


def worker_main(pid, wid, seed, tier, budget, libdir, flavour, queue):
    w = Worker(pid, wid, seed, tier, budget, libdir, flavour, queue)
    err = None
    try:
        w.run()
    except BaseException:
        err = traceback.format_exc()
    queue.put({'wid': wid, 'count': w.count, 'nontrivial': w.nontrivial,
               'labels': w.labels, 'samples': w.samples,
               'per_sub': w.per_sub, 'failure': w.failure, 'error': err})


def run_history(pid, libdir, flavour, history):
    """Runs the cases of a history in one fresh executor; the last decides."""
    c = Child(pid, libdir, flavour)
    try:
        res = None
        for sub, case in history:
            res = c.run(sub, case)
            if not res['ok']:
                return res
        return res
    finally:
        c.stop()


def confirm(pid, libdir, flavour, failure):
    """Returns the shortest history that fails again, or None."""
    single = [[failure['sub'], failure['case']]]
    for _ in range(3):
        if not run_history(pid, libdir, flavour, single)['ok']:
            return single
    hist = failure.get('history') or []
    if len(hist) > 1:
        t0 = time.time()
        for _ in range(2):
            if not run_history(pid, libdir, flavour, hist)['ok']:
                break
        else:
            return None
        # drop chunks of the history while it still fails
        size = max(1, (len(hist) - 1) // 2)
        while size >= 1 and time.time() - t0 < 60:
            i, changed = 0, False
            while i < len(hist) - 1 and time.time() - t0 < 60:
                cand = hist[:i] + hist[min(i + size, len(hist) - 1):]
                if not run_history(pid, libdir, flavour, cand)['ok']:
                    hist, changed = cand, True
                else:
                    i += size
            if not changed:
                if size == 1:
                    break
                size //= 2
        return hist
    return None


def clean_tmp():
    """The library reuses any /tmp/<hash>.so it finds: start from none.

    Not while another check is running."""
    global tmp_lock
    if tmp_lock is None:
        tmp_lock = open(os.path.join(vbuild.BUILD, 'tmp.lock'), 'w')
    try:
        fcntl.flock(tmp_lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
    except OSError:
        fcntl.flock(tmp_lock, fcntl.LOCK_SH)
        return
    for f in os.listdir('/tmp'):
        if re.fullmatch(r'[0-9]+(-\w{6})?(\.(cpp|so))?', f):
            p = os.path.join('/tmp', f)
            if os.path.isfile(p) and not os.path.islink(p):
                try:
                    os.unlink(p)
                except OSError:
                    pass
    fcntl.flock(tmp_lock, fcntl.LOCK_SH)


tmp_lock = None


def known_findings(pid):
    with open(os.path.join(VERIF, 'known_findings.json')) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv[1:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    prop = load_prop(pid)
    flavour = getattr(prop, 'FLAVOUR', 'release')
    try:
        libdir = vbuild.build(flavour)
    except vbuild.BuildError as e:
        print('the C++ library does not build:\n' + str(e)[-3000:])
        return 2
    t_build = time.time() - t0
    if os.environ.get('VERIF_KEEP_TMP') != '1':
        clean_tmp()
    budget = float(os.environ.get('VERIF_BUDGET') or
                   (getattr(prop, 'QUICK_S', 22) if tier == 'quick'
                    else getattr(prop, 'THOROUGH_S', 420)))
    queue = mp.Queue()
    procs = []
    for w in range(N_WORKERS):
        p = mp.Process(target=worker_main,
                       args=(pid, w, seed, tier, budget, libdir, flavour,
                             queue))
        p.start()
        procs.append(p)
    results = []
    stop_at = None
    while len(results) < len(procs):
        try:
            r = queue.get(timeout=1.0)
            results.append(r)
            if r['failure'] and stop_at is None:
                stop_at = time.time() + 3
        except Exception:
            if not any(p.is_alive() for p in procs) and queue.empty():
                break
        if stop_at is not None and time.time() > stop_at:
            break
    for p in procs:
        if p.is_alive() and stop_at is not None:
            kill_tree(p.pid)
        p.join()

    errors = [r['error'] for r in results if r['error']]
    failures = [r['failure'] for r in results if r['failure']]
    failures.sort(key=lambda f: len(json.dumps(f['case'])))
    nontrivial, labels, per_sub, samples, count = set(), {}, {}, [], 0
    for r in results:
        count += r['count']
        nontrivial |= r['nontrivial']
        samples += r['samples']
        for src, dst in ((r['labels'], labels), (r['per_sub'], per_sub)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v

    violations = []
    unconfirmed = []
    for f in failures:
        hist = confirm(pid, libdir, flavour, f)
        if hist is None:
            unconfirmed.append({'sub': f['sub'], 'case': f['case'],
                                'msg': f['msg'][:400]})
            continue
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        name = hashlib.md5(json.dumps(hist).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, name))
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'history': hist, 'msg': f['msg']},
                      fh, indent=1)
        violations.append((path, f))
        break

    for k in known_findings(pid):
        if k['kind'] != 'known':
            continue
        res = run_history(pid, libdir, flavour, [[k['sub'], k['case']]])
        if not res['ok']:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    picked, seen = [], set()
    for s in samples:
        if sum(1 for q in picked if q['check'] == s[0]) < 3 and len(picked) < 14:
            txt = json.dumps(s)
            if txt not in seen:
                seen.add(txt)
                picked.append({'check': s[0], 'case': s[1]})
    if os.environ.get('VERIF_KEEP_TMP') != '1':
        clean_tmp()
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': getattr(prop, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': count,
                       'distinct_nontrivial': len(nontrivial),
                       'rule': prop.RULE,
                       'samples': picked,
                       'cases_per_check': per_sub,
                       'classes': dict(sorted(labels.items())),
                       'unconfirmed_failures': unconfirmed,
                       'build_s': round(t_build, 1)},
          'assumptions': getattr(prop, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 1),
          'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evf = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(evf + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(evf + '.tmp', evf)

    if violations:
        path, f = violations[0]
        print('%s/%s: %s' % (pid, f['sub'], f['msg'][:1500]))
        print('case: ' + json.dumps(f['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print(errors[0])
        return 2
    if len(results) < len(procs):
        print('a worker ended without an answer')
        return 2
    for u in unconfirmed:
        print('unconfirmed (did not fail again in 3 fresh runs): ' +
              json.dumps(u)[:600])
    print('%s held: %d cases, %d distinct non-trivial, %.0f s' % (
        pid, count, len(nontrivial), time.time() - t0))
    return 0


def kill_tree(pid):
    """Ends a worker of ours together with its executor."""
    try:
        out = subprocess.run(['ps', '-o', 'pid=', '--ppid', str(pid)],
                             stdout=subprocess.PIPE).stdout.split()
    except OSError:
        out = []
    for c in out:
        try:
            os.killpg(int(c), 9)
        except OSError:
            pass
    try:
        os.kill(pid, 9)
    except OSError:
        pass


def replay(argv):
    with open(argv[0]) as fh:
        r = json.load(fh)
    pid = r['property']
    prop = load_prop(pid)
    flavour = getattr(prop, 'FLAVOUR', 'release')
    libdir = vbuild.build(flavour)
    clean_tmp()
    res = run_history(pid, libdir, flavour, r['history'])
    if res['ok']:
        print('the case passes')
        return 0
    print(res['msg'])
    print('VIOLATION property=%s replay=%s' % (pid, argv[0]))
    return 1
