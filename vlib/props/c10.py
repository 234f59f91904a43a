"""The cache survives killed, failing and concurrent writers."""
LEVEL = 'fault_enumeration'
RULE = ('a cached call is interrupted after n bytes of output (killed, or '
        'the disk full), or its entry is cut, emptied or zeroed, or several '
        'processes make overlapping calls; every later result is compared '
        'with the uncached one; non-trivial when the fault hit (the process '
        'was killed, the write failed, the entry was damaged) or at least '
        'two processes made the same call')
ASSUMPTIONS = ['damage is what an interrupted or lost write leaves: a prefix '
               'of the entry or zeros', 'rename within a directory is atomic']
ROUND = {'damage': 60, 'kill': 25, 'race': 6}

FNS = ['integrate', 'transform_f', 'transform_b', 'varf', 'varfd',
       'tens_list', 'tens_dict', 'project_v', 'project_m', 'inner', 'size',
       'list', 'user', 'user_sparse', 'user_float']


def s_call():
    from hypothesis import strategies as st
    from vlib import gen
    return st.fixed_dictionaries({
        'fn': st.sampled_from(FNS), 'dim': st.integers(1, 2),
        'degree': st.sampled_from([2, 4]), 'set': st.sampled_from(gen.SETS),
        'seed': st.integers(0, 3), 'sparse': st.booleans(),
        'four': st.integers(0, 1), 'n': st.integers(2, 4),
        'len': st.sampled_from([1, 8, 300, 3000])})


def s_damage():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'call': s_call(), 'how': st.sampled_from(['cut', 'zero', 'zerotail']),
        'at': st.lists(st.one_of(
            st.integers(0, 300), st.floats(0, 1).map(lambda f: round(f, 3))),
            min_size=1, max_size=8), 'off': st.booleans()})


def s_kill():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'call': s_call(), 'kill': st.booleans(),
        'at': st.lists(st.one_of(
            st.integers(0, 300), st.floats(0, 1).map(lambda f: round(f, 3))),
            min_size=1, max_size=4), 'before': st.booleans()})


def s_race():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        pool = draw(st.lists(s_call(), min_size=1, max_size=3))
        if draw(st.booleans()):
            pool[0] = dict(pool[0], fn=draw(st.sampled_from(
                ['user', 'user_sparse'])), len=100000)
        n = draw(st.integers(2, 6))
        return {'pool': pool, 'procs': [draw(st.lists(st.integers(
            0, len(pool) - 1), min_size=1, max_size=4)) for _ in range(n)]}
    return case()


SUBS = {'damage': (s_damage, 3), 'kill': (s_kill, 4), 'race': (s_race, 3)}


def fixed(tier):
    """Every cut of one dense, one sparse and one scalar entry."""
    step = 1 if tier == 'thorough' else 7
    out = []
    for fn in ('user', 'user_sparse', 'user_float'):
        call = {'fn': fn, 'dim': 1, 'degree': 2, 'set': 'triangle',
                'seed': 0, 'sparse': False, 'four': 0, 'n': 2, 'len': 8}
        top = 1300 if fn == 'user_sparse' else 200
        pts = list(range(0, top, step))
        for k in range(0, len(pts), 24):
            out.append(('damage', {'call': call, 'how': 'cut',
                                   'at': pts[k:k + 24], 'off': False}))
            out.append(('kill', {'call': call, 'kill': k % 48 == 0,
                                 'at': pts[k:k + 24], 'before': False}))
    return out


def thunk(c):
    import importlib
    import numpy as np
    import scipy.sparse as ss
    hcache = importlib.import_module('hermipy.cache')
    if not c['fn'].startswith('user'):
        from vlib.props.c09 import core_call
        return core_call(dict(c, degree=2 if c['four'] else c['degree']))

    @hcache.cache()
    def user(seed, n, kind):
        v = np.random.RandomState(seed).uniform(-1, 1, n)
        if kind == 'user_sparse':
            return ss.csr_matrix(v.reshape(1, -1))
        return float(v[0]) if kind == 'user_float' else v
    return lambda: user(c['seed'], c['len'], c['fn'])


def entries(cdir):
    import os
    out = []
    for root, _, files in os.walk(cdir):
        out += [os.path.join(root, f) for f in files]
    return sorted(out)


def in_child(body):
    """Runs body in a forked process; returns its wait status."""
    import os
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            code = body()
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


def check(sub, c):
    import os
    import resource
    import signal
    from vlib.api import hm, fail, fresh_dir
    from vlib.props.c09 import same
    cdir = fresh_dir('cache10')
    labels = []

    def uncached(fn):
        hm.settings.update(cache=False, cachedir=fresh_dir('none'))
        try:
            return fn()
        finally:
            hm.settings.update(cache=True, cachedir=cdir)

    if sub == 'race':
        fns = [thunk(x) for x in c['pool']]
        want = [uncached(f) for f in fns]
        r, w = os.pipe()
        pids = []
        for calls in c['procs']:
            pid = os.fork()
            if pid == 0:
                code = 4
                try:
                    os.close(w)
                    os.read(r, 1)         # wait until all are there
                    for i in calls:
                        same('', fns[i](), want[i])
                    code = 0
                except BaseException as e:
                    try:
                        with open(os.path.join(cdir, 'err'), 'w') as fh:
                            fh.write(repr(e)[:300])
                    except OSError:
                        pass
                finally:
                    os._exit(code)
            pids.append(pid)
        os.close(r)
        os.close(w)
        bad = [os.waitpid(p, 0)[1] for p in pids]
        if any(bad):
            msg = ''
            if os.path.exists(os.path.join(cdir, 'err')):
                with open(os.path.join(cdir, 'err')) as fh:
                    msg = fh.read()
            fail('processes sharing the cache end with %s: %s', bad, msg)
        for f, v in zip(fns, want):
            same('after the race', f(), v)
            same('after the race, again', f(), v)
        flat = [i for p in c['procs'] for i in set(p)]
        return len(set(flat)) < len(flat), ['race of %d' % len(c['procs'])]

    fn = thunk(c['call'])
    want = uncached(fn)
    same('first call', fn(), want)
    files = entries(cdir)
    if not files:
        return False, ['not cached']
    size = max(os.path.getsize(f) for f in files)
    points = [a if isinstance(a, int) else int(a*size) for a in c['at']]
    hit = False
    for n in points:
        if sub == 'damage':
            files = entries(cdir)
            for f in files:
                with open(f, 'rb') as fh:
                    data = fh.read()
                if len(data) <= n:
                    continue
                hit = True
                with open(f, 'wb') as fh:
                    fh.write({'cut': data[:n],
                              'zero': b'\0'*len(data),
                              'zerotail': data[:n]}[c['how']])
                    if c['how'] == 'zerotail' and n < 64:
                        # the header is lost
                        fh.write(b'\0'*(len(data) - n))
            if c['off']:
                hm.settings['cache'] = False
                same('cache off, entry damaged at %d' % n, fn(), want)
                hm.settings['cache'] = True
            same('entry damaged (%s at %d)' % (c['how'], n), fn(), want)
            same('entry damaged (%s at %d), again' % (c['how'], n), fn(),
                 want)
            labels.append(c['how'])
        else:
            if not c['before']:
                cdir = fresh_dir('cache10')
                hm.settings['cachedir'] = cdir

            def body():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if c['kill']
                              else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                try:
                    got = fn()
                except OSError:
                    return 5
                same('', got, want)
                return 0
            st = in_child(body)
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGXFSZ or \
                    os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 5):
                fail('the call whose writes stop at %d bytes ends with '
                     'status %d', n, st)
            if st:
                hit = True
                labels.append('killed' if c['kill'] else 'write error')
            same('after a writer stopped at %d bytes' % n, fn(), want)
            same('after a writer stopped at %d bytes, again' % n, fn(), want)
    return hit, sorted(set(labels)) + [c['call']['fn']]
