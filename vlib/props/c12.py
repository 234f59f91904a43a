"""Compiling a function survives faults and concurrent processes."""
LEVEL = 'fault_enumeration'
RULE = ('a compiler stand-in fails, is killed, leaves a part of its output, '
        'is absent, is slow, or the calling process is killed while it runs '
        '(after no, some or all of the output); several processes may use '
        'the same new function at once; the faulty call must raise and every '
        'other call must return the right values; non-trivial when the fault '
        'struck or two processes shared the function')
ASSUMPTIONS = ['a compiler that fails says so in its exit status']
REAL_CXX = True
ROUND = {'fault': 12, 'race': 6, 'history': 6}
QUICK_S = 24

MODES = ['none_exit', 'none_self', 'none_victim', 'part_exit', 'part_self',
         'part_victim', 'full_exit', 'full_victim', 'absent']


def s_fault():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'faults': st.lists(st.tuples(
            st.sampled_from(MODES),
            st.sampled_from([0, 1, 64, 1000, 4096, 8000, 14000])).map(list),
            min_size=1, max_size=3),
        'here': st.booleans(), 'seed': st.integers(0, 999),
        'threads': st.integers(1, 2)})


def s_race():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'procs': st.lists(st.fixed_dictionaries({
            'mode': st.sampled_from(['slow', 'slow', 'ok', 'ok',
                                     'part_victim', 'part_exit']),
            'bytes': st.sampled_from([0, 64, 4096, 8000]),
            'wait': st.sampled_from(['0', '0.02', '0.1', '0.2']),
            'start': st.sampled_from([0, 0, 0, .02, .06, .1])}),
            min_size=2, max_size=5), 'seed': st.integers(0, 999)})


def s_history():
    """Calls of one process, the compiler failing at some of them."""
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'calls': st.lists(st.tuples(
            st.integers(0, 2),
            st.sampled_from(['ok', 'ok', 'none_exit', 'none_self',
                             'part_exit', 'part_self', 'full_exit',
                             'absent']),
            st.sampled_from([0, 64, 4096, 8000])).map(list),
            min_size=2, max_size=8), 'seed': st.integers(0, 999)})


SUBS = {'fault': (s_fault, 2), 'race': (s_race, 2), 'history': (s_history, 1)}


def fixed(tier):
    out = [('fault', {'faults': [[m, n]], 'here': h, 'seed': 1,
                      'threads': 1})
           for m in MODES for h in (False, True)
           for n in ((0, 1, 4096, 14000) if m.startswith('part') else (0,))]
    for m in MODES:
        if not m.endswith('victim'):
            out.append(('history', {'calls': [
                [0, m, 64], [0, 'ok', 0], [1, m, 64], [2, m, 4096],
                [1, 'ok', 0], [2, 'ok', 0], [0, 'absent', 0]], 'seed': 1}))
    return out


def check(sub, c):
    import os
    import signal
    import tempfile
    import time
    import uuid
    import numpy as np
    from vlib.api import core, fail, SCRATCH, fresh_dir
    V = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    d = fresh_dir('stub12')
    # a function nobody compiled before, with known values
    const = int(uuid.uuid4().int % 10**9)
    body = 'v[0]*%d + %d - %d' % (c['seed'] + 2, const, const)
    nodes = [np.array([-1.5, 0., 2.])]
    want = nodes[0]*(c['seed'] + 2)
    good = os.path.join(V, 'vlib', 'shim', 'c++')

    def call():
        return core.discretize(body, nodes, np.zeros(1), np.eye(1))

    def right(v):
        return v.shape == want.shape and \
            np.abs(v - want).max() <= 1e-6*(1 + abs(want).max())

    def compiler(mode, n, wait='0'):
        path = os.environ['PATH'].split(':')
        stub = os.path.join(V, 'vlib', 'stub')
        if mode == 'absent':
            e = os.path.join(d, 'bin')
            os.makedirs(e, exist_ok=True)
            for t in ('sh', 'env', 'rm', 'cat'):
                try:
                    os.symlink('/usr/bin/' + t, os.path.join(e, t))
                except FileExistsError:
                    pass
            os.environ['PATH'] = e
        else:
            os.environ['PATH'] = ':'.join([stub] + path)
        sd = tempfile.mkdtemp(dir=d)
        os.environ.update(STUB_MODE=mode, STUB_BYTES=str(n),
                          STUB_WAIT=wait, STUB_DIR=sd, STUB_REAL=good,
                          STUB_VICTIM=str(os.getpid()))

    def run(mode, n=0, wait='0', start=0, victim=True):
        """Forks a process that makes the call; returns its pid.

        Exit status 0: right values, 1: an exception, 2: wrong values."""
        pid = os.fork()
        if pid:
            return pid
        code = 3
        try:
            time.sleep(start)
            compiler(mode, n, wait)
            try:
                code = 0 if right(call()) else 2
            except Exception:
                code = 1
        finally:
            os._exit(code)

    def status(pid):
        st = os.waitpid(pid, 0)[1]
        return -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)

    if sub == 'history':
        bodies = ['v[0]*%d + %d - %d' % (c['seed'] + 2 + k, const, const)
                  for k in range(3)]
        pid = os.fork()
        if not pid:
            code, path, done = 0, os.environ['PATH'], set()
            try:
                for i, (k, mode, n) in enumerate(c['calls']):
                    os.environ['PATH'] = path
                    compiler(mode, n)
                    try:
                        v = core.discretize(bodies[k], nodes, np.zeros(1),
                                            np.eye(1))
                        w = nodes[0]*(c['seed'] + 2 + k)
                        if mode != 'ok' and k not in done or np.abs(
                                v - w).max() > 1e-6*(1 + abs(w).max()):
                            code = 10 + i
                            break
                        done.add(k)
                    except Exception:
                        if mode == 'ok' or k in done:
                            code = 30 + i
                            break
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        s = status(pid)
        if s:
            fail('calls (function, compiler, bytes) %s of one process: %s',
                 c['calls'], 'call %d returns wrong values' % (s - 10)
                 if 10 <= s < 30 else 'call %d raises' % (s - 30)
                 if s >= 30 else 'status %d' % s)
        modes = {m for _, m, _ in c['calls']}
        return modes != {'ok'} and 'ok' in modes, ['history']
    if sub == 'fault':
        hit = False
        for mode, n in c['faults']:
            st = [status(p) for p in [run(mode, n)
                                      for _ in range(c['threads'])]]
            for s in st:
                ok = (1, -signal.SIGKILL) if mode.endswith('victim') else (1,)
                if s not in ok:
                    fail('compiler fault %s at %d bytes: the call ended with '
                         '%d (1 is an exception, 0 right values, 2 wrong '
                         'ones)', mode, n, s)
                hit = True
        s = status(run('ok'))
        if s != 0:
            fail('after the faults %s a good compiler gives status %d '
                 '(1 is an exception, 2 wrong values)', c['faults'], s)
        if c['here']:
            if not right(call()):
                fail('wrong values after the faults')
        s = status(run('absent'))
        if s != 0:
            fail('a compiled function is not found again: status %d', s)
        return hit, [m for m, _ in c['faults']]

    ps = [(p, run(p['mode'], p['bytes'], p['wait'], p['start']))
          for p in c['procs']]
    res = [(p['mode'], status(pid)) for p, pid in ps]
    for mode, s in res:
        if mode == 'part_victim' and s in (0, 1, -signal.SIGKILL):
            continue
        if mode == 'part_exit' and s in (0, 1):
            continue
        if s != 0:
            fail('processes sharing a new function: (compiler, status) are '
                 '%s; 1 is an exception, 2 wrong values', res)
    if status(run('ok')) != 0 or not right(call()):
        fail('wrong values after the race')
    return True, ['race of %d' % len(ps)] + [p['mode'] for p in c['procs']]
