"""The cache is transparent over any history of calls."""
RULE = ('histories of calls with nearly equal arguments (reshaped, recast, '
        'regrouped, one bit changed, moved to keywords, modified in place) '
        'to cached functions, the cache going on and off; every result '
        'against the uncached one; non-trivial when two calls of the history '
        'differ and one is repeated with the cache on')
ASSUMPTIONS = ['functions are pure; arguments are of the supported types']
ROUND = {'user': 60, 'large': 40, 'core': 30, 'restart': 2, 'solve': 30}


# Arguments as JSON {{{
def s_arg(depth=2):
    from hypothesis import strategies as st
    from vlib import gen
    num = gen.num(-2, 2, 4).map(lambda x: x + 0.)
    arr = st.builds(
        lambda dt, sh, vals, order: {'t': 'arr', 'dtype': dt, 'shape': sh,
                                     'v': vals, 'order': order},
        st.sampled_from(['float64', 'int64', 'float32', 'complex128']),
        st.sampled_from([[6], [2, 3], [3, 2], [1, 6], [6, 1], [4], [2, 2],
                         [0], [1]]),
        st.lists(st.integers(-2, 2), min_size=6, max_size=6),
        st.sampled_from(['C', 'C', 'F', 'strided']))
    leaf = st.one_of(
        s_big(), st.integers(-3, 12).map(lambda v: {'t': 'int', 'v': v}),
        num.map(lambda v: {'t': 'float', 'v': v}),
        st.sampled_from(['', '1', 'a', 'b', 'ab', '1.0', 'a-b', 'None',
                         'float-1.0']).map(lambda v: {'t': 'str', 'v': v}),
        num.map(lambda v: {'t': 'npfloat', 'v': v}),
        st.booleans().map(lambda v: {'t': 'bool', 'v': v}),
        st.just({'t': 'none'}), arr, arr,
        st.integers(0, 9).map(lambda v: {'t': 'sym', 'v': v}),
        st.builds(lambda v, sh: {'t': 'csr', 'v': v, 'shape': sh},
                  st.lists(st.sampled_from([0, 0, 1, 2]), min_size=6,
                           max_size=6),
                  st.sampled_from([[2, 3], [3, 2], [6, 1]])))
    if depth == 0:
        return leaf
    sub = s_arg(depth - 1)
    key = st.one_of(st.sampled_from(['a', 'b', '1']).map(
        lambda v: {'t': 'str', 'v': v}),
        st.integers(0, 2).map(lambda v: {'t': 'int', 'v': v}))
    return st.one_of(
        leaf, leaf, leaf,
        st.builds(lambda t, v: {'t': t, 'v': v},
                  st.sampled_from(['list', 'tuple']),
                  st.one_of(st.lists(sub, max_size=3),
                            st.lists(leaf, min_size=3, max_size=6))),
        st.builds(lambda v: {'t': 'fset', 'v': v},
                  st.lists(key, max_size=3, unique_by=str)),
        st.builds(lambda k, v: {'t': 'dict', 'k': k, 'v': v[:len(k)]},
                  st.lists(key, max_size=2, unique_by=str),
                  st.lists(sub, min_size=2, max_size=2)))


def s_big():
    """So large that their text is an abridged one."""
    from hypothesis import strategies as st
    return st.builds(
        lambda t, n, vals: {'t': t, 'n': n, 'v': vals, 'at': 0, 'by': 0.},
        st.sampled_from(['bigarr', 'bigmat', 'bigcsr', 'biglist', 'bigstr']),
        st.sampled_from([1100, 2048, 5000, 20000]),
        st.lists(st.integers(-2, 2), min_size=3, max_size=3))


def variant(draw, a):
    """Something close to the argument a."""
    from hypothesis import strategies as st
    a = dict(a)
    t = a['t']
    if t == 'int':
        return draw(st.sampled_from([
            {'t': 'float', 'v': float(a['v'])}, {'t': 'str',
                                                 'v': str(a['v'])},
            {'t': 'int', 'v': a['v'] + 1}, {'t': 'int', 'v': 10*a['v']},
            {'t': 'bool', 'v': bool(a['v'])}, {'t': 'list', 'v': [a]}]))
    if t in ('bool', 'npfloat'):
        return draw(st.sampled_from([
            {'t': 'float', 'v': float(a['v'])},
            {'t': 'int', 'v': int(a['v'])}, {'t': 'str', 'v': str(a['v'])},
            {'t': 'npfloat', 'v': float(a['v'])},
            {'t': 'bool', 'v': not a['v']}]))
    if t == 'float':
        import math
        return draw(st.sampled_from([
            {'t': 'float', 'v': math.nextafter(a['v'], 9.)},
            {'t': 'float', 'v': a['v'] + 1e-13},
            {'t': 'str', 'v': str(a['v'])}, {'t': 'int', 'v': int(a['v'])},
            {'t': 'npfloat', 'v': a['v']},
            {'t': 'float', 'v': -a['v'] + 0.}]))
    if t == 'arr':
        k = draw(st.integers(0, 4))
        if k == 0:
            a['shape'] = draw(st.sampled_from([[6], [2, 3], [3, 2], [1, 6],
                                               [6, 1]]))
        elif k == 1:
            a['dtype'] = draw(st.sampled_from(['float64', 'int64',
                                               'float32', 'complex128']))
        elif k == 2:
            i = draw(st.integers(0, 5))
            a['v'] = [v + (j == i) for j, v in enumerate(a['v'])]
        elif k == 3:
            a['order'] = draw(st.sampled_from(['C', 'F', 'strided']))
        else:
            a['view'] = draw(st.sampled_from(['int64', 'float64']))
        return a
    if t == 'csr':
        if draw(st.booleans()):
            a['shape'] = draw(st.sampled_from([[2, 3], [3, 2], [6, 1]]))
        else:
            a['v'] = a['v'][1:] + a['v'][:1]
        return a
    if t == 'sym':
        a['v'] = draw(st.integers(0, 9))
        return a
    if t.startswith('big'):
        k = draw(st.integers(0, 3))
        if k == 0:
            a['n'] = a['n'] + 1
        elif k == 1 and t in ('bigarr', 'bigmat'):
            a['t'] = draw(st.sampled_from(['bigarr', 'bigmat']))
        else:
            a['at'] = draw(st.sampled_from([0, 1, 500, 1097, -1, -1, -2]))
            a['by'] = draw(st.sampled_from([0., 1., -1., 1e-13]))
        return a
    if t in ('list', 'tuple'):
        k = draw(st.integers(0, 4))
        if k == 0:
            a['t'] = 'tuple' if t == 'list' else 'list'
        elif k == 1 and len(a['v']) > 1:
            a['v'] = [{'t': t, 'v': a['v'][:1]}] + a['v'][1:]
        elif k == 2 and a['v']:
            i = draw(st.integers(0, len(a['v']) - 1))
            a['v'] = a['v'][:i] + [variant(draw, a['v'][i])] + a['v'][i+1:]
        elif k == 3:
            a['v'] = a['v'][1:] + a['v'][:1]
        else:
            a['v'] = a['v'][::-1]
        return a
    if t == 'dict' and a['k']:
        if draw(st.booleans()):
            a['v'] = [variant(draw, a['v'][0])] + a['v'][1:]
        else:
            a['v'] = a['v'][::-1]
        return a
    if t == 'str':
        return draw(st.sampled_from([{'t': 'str', 'v': a['v'] + '-'},
                                     {'t': 'list', 'v': [a]},
                                     {'t': 'none'}]))
    return draw(st.sampled_from([{'t': 'int', 'v': 0}, {'t': 'str', 'v': ''},
                                 {'t': 'none'}, {'t': 'list', 'v': []}]))


def s_user(arg=None):
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        n = draw(st.integers(1, 3))
        base = {'fn': draw(st.integers(0, 3)),
                'args': [draw(arg() if arg else s_arg())
                         for _ in range(n)], 'kw': {}}
        calls = [base]
        for _ in range(draw(st.integers(1, 6))):
            src = draw(st.sampled_from(calls))
            new = {'fn': src['fn'], 'args': list(src['args']),
                   'kw': dict(src['kw'])}
            k = draw(st.integers(0, 9))
            if k <= 5 and new['args']:
                i = draw(st.integers(0, len(new['args']) - 1))
                new['args'][i] = variant(draw, new['args'][i])
            elif k == 6:
                new['fn'] = draw(st.integers(0, 3))
            elif k == 7 and new['args']:
                new['kw'] = dict(new['kw'])
                new['kw'][draw(st.sampled_from(['u', 'v', 'w']))] = \
                    new['args'].pop()
            elif k == 8 and len(new['args']) > 1:
                new['args'] = new['args'][::-1]
            # otherwise the same call again
            new['cache'] = draw(st.sampled_from([True, True, True, False]))
            # by the setting, or by the keyword of the call alone
            new['by'] = draw(st.sampled_from(['setting', 'setting', 'key']))
            calls.append(new)
        for c in calls:
            c.setdefault('cache', True)
        return {'calls': calls}
    return case()
# }}}


def s_core():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        calls = []
        base = {'dim': draw(st.integers(1, 3)), 'degree': draw(
            st.integers(1, 4)), 'set': draw(st.sampled_from(gen.SETS)),
            'seed': draw(st.integers(0, 3)), 'fn': draw(st.sampled_from(
                FNS)), 'sparse': False, 'four': 0, 'n': draw(
                    st.integers(2, 4))}
        calls.append(base)
        for _ in range(draw(st.integers(1, 7))):
            new = dict(draw(st.sampled_from(calls)))
            for _ in range(draw(st.integers(0, 2))):
                k = draw(st.sampled_from(['dim', 'degree', 'set', 'seed',
                                          'fn', 'sparse', 'four', 'n']))
                new[k] = draw({'dim': st.integers(1, 3),
                               'degree': st.integers(1, 4),
                               'set': st.sampled_from(gen.SETS),
                               'seed': st.integers(0, 3),
                               'fn': st.sampled_from(FNS),
                               'sparse': st.booleans(),
                               'four': st.integers(0, 1),
                               'n': st.integers(2, 4)}[k])
            calls.append(new)
        for i, c in enumerate(calls):
            c = calls[i] = dict(c)
            c['cache'] = draw(st.sampled_from([True, True, True, False]))
            c['by'] = draw(st.sampled_from(['setting', 'setting', 'key']))
            if c['four'] and c['fn'] in ('transform_f', 'transform_b',
                                         'varf', 'varfd', 'integrate'):
                c['degree'] = 2
        return {'calls': calls}
    return case()


FNS = ['discretize', 'integrate', 'transform_f', 'transform_b', 'varf',
       'varfd', 'tens_list', 'tens_dict', 'tens_id', 'project_v',
       'project_m', 'inner', 'size', 'get_degree', 'list', 'index']


def s_solve():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        return {'calls': draw(st.lists(st.fixed_dictionaries({
            'n': st.integers(2, 4), 'ms': st.integers(0, 2),
            'bs': st.integers(0, 2), 'sparse': st.booleans(),
            'gmres': st.booleans(), 'cache': st.booleans()}),
            min_size=2, max_size=6))}
    return case()


SUBS = {'user': (s_user, 4), 'large': (lambda: s_user(s_big), 1), 'core': (s_core, 4), 'restart': (s_core, 1),
        'solve': (s_solve, 1)}


def decode(a):
    import numpy as np
    import scipy.sparse as ss
    import sympy
    t = a['t']
    if t in ('int', 'float', 'str', 'bool'):
        return a['v']
    if t == 'npfloat':
        return np.float64(a['v'])
    if t == 'none':
        return None
    if t == 'bigstr':
        v = list('+'.join('v[%d]' % abs(k) for k in a['v'])*(a['n']//8))
        v[a['at']] = chr(ord(v[a['at']]) + int(a['by']))
        return ''.join(v)
    if t.startswith('big'):
        n = min(a['n'], 2100) if t == 'biglist' else a['n']
        x = np.resize(np.array(a['v'], float), n)
        x[a['at']] += a['by']
        if t == 'bigmat':
            x = np.vstack((x, x))
        if t == 'biglist':
            return x.tolist()
        if t == 'bigcsr':
            return ss.csr_matrix(ss.diags(x))
        return x
    if t == 'arr':
        n = int(np.prod(a['shape']))
        x = np.array(a['v'][:n], dtype=a['dtype']).reshape(a['shape'])
        if a.get('view') and x.dtype.itemsize == 8 and x.size:
            x = x.view(a['view'])
        if a['order'] == 'F':
            x = np.asfortranarray(x)
        if a['order'] == 'strided' and x.size:
            y = np.zeros(tuple(2*k for k in x.shape), x.dtype)
            y[tuple(slice(None, None, 2) for _ in x.shape)] = x
            x = y[tuple(slice(None, None, 2) for _ in x.shape)]
        return x
    if t == 'csr':
        return ss.csr_matrix(np.array(a['v'], float).reshape(a['shape']))
    if t == 'sym':
        x, xr = sympy.Symbol('x'), sympy.Symbol('x', real=True)
        y = sympy.Symbol('y')
        return [x, xr, x + 1, xr + 1, sympy.Float(.5), sympy.Rational(1, 2),
                x**2, sympy.Symbol('1'), sympy.Integer(1), x - y][a['v']]
    if t in ('list', 'tuple', 'fset'):
        return {'list': list, 'tuple': tuple, 'fset': frozenset}[t](
            decode(v) for v in a['v'])
    return {decode(k): decode(v) for k, v in zip(a['k'], a['v'])}


def canon(x):
    """Equal texts only for arguments no function can tell apart."""
    import numpy as np
    import scipy.sparse as ss
    import sympy
    if isinstance(x, np.ndarray):
        return 'arr%s%s%s' % (x.dtype.str, x.shape, x.tolist())
    if ss.issparse(x):
        x = x.tocoo()
        return 'csr%s%s' % (x.shape, sorted(
            e for e in zip(x.row.tolist(), x.col.tolist(), x.data.tolist())
            if e[2] != 0))
    if isinstance(x, sympy.Basic):
        return 'sym' + sympy.srepr(x)
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ','.join(canon(e) for e in x))
    if isinstance(x, frozenset):
        return 'fset(%s)' % ','.join(sorted(canon(e) for e in x))
    if isinstance(x, dict):
        return 'dict(%s)' % ','.join(sorted(
            canon(k) + ':' + canon(v) for k, v in x.items()))
    return type(x).__name__ + repr(x)


def same(what, got, want):
    import numpy as np
    import scipy.sparse as ss
    from vlib.api import fail
    if ss.issparse(want):
        if not isinstance(got, ss.csr_matrix):
            fail('%s: a %s instead of a sparse matrix', what, type(got))
        if got.shape != want.shape or got.dtype != want.dtype or \
                not np.array_equal(got.toarray(), want.toarray()):
            fail('%s: another sparse matrix', what)
    elif isinstance(want, np.ndarray):
        if type(got) is not np.ndarray or got.shape != want.shape or \
                got.dtype != want.dtype or \
                not np.array_equal(got, want, equal_nan=got.dtype.kind in
                                   'fc'):
            fail('%s: %r instead of %r', what, got, want)
    elif isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want):
            fail('%s: %r instead of %r', what, got, want)
        for a, b in zip(got, want):
            same(what, a, b)
    elif isinstance(want, (int, float)):
        if isinstance(got, np.ndarray) or not (
                got == want or got != got and want != want) or \
                isinstance(want, int) != isinstance(got, int):
            fail('%s: %r instead of %r', what, got, want)
    elif got != want:
        fail('%s: %r instead of %r', what, got, want)


def core_call(c):
    """The function that makes one call of the core."""
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import core
    dim, deg, s, fn, n = c['dim'], c['degree'], c['set'], c['fn'], c['n']
    rng = np.random.RandomState(c['seed'] + 100)
    kw = {'index_set': s}
    four = [c['four']]*dim
    nodes = [np.sort(rng.uniform(-1, 1, n)) for _ in range(dim)]
    weights = [rng.uniform(0, 1, n) for _ in range(dim)]
    size = ref.size(dim, deg, s)
    fg = rng.uniform(-1, 1, n**dim)
    co = rng.uniform(-1, 1, size)
    mat = rng.uniform(-1, 1, (size, size))*(rng.uniform(0, 1, (size, size))
                                            < .5)
    arg = ss.csr_matrix(mat) if c['sparse'] else mat
    v1 = [rng.uniform(-1, 1, deg + 1) for _ in range(2)]
    m1 = [rng.uniform(-1, 1, (deg + 1, deg + 1)) for _ in range(2)]
    if fn == 'discretize':
        body = ['v[0]', '2*v[0]', 'v[0]*v[0]', 'cos(v[0])'][c['seed']]
        return lambda **o: core.discretize(body, nodes, np.zeros(dim) + deg,
                                       np.eye(dim)*n, **o)
    if fn == 'integrate':
        return lambda **o: core.integrate(fg, nodes, weights, do_fourier=four, **o)
    if fn == 'transform_f':
        return lambda **o: core.transform(deg, fg, nodes, weights, True,
                                      do_fourier=four, **kw, **o)
    if fn == 'transform_b':
        return lambda **o: core.transform(deg, co, nodes, weights, False,
                                      do_fourier=four, **kw, **o)
    if fn == 'varf':
        return lambda **o: core.varf(deg, fg, nodes, weights,
                                 sparse=c['sparse'], do_fourier=four, **kw, **o)
    if fn == 'varfd':
        sf = 'cube' if c['four'] else s
        z = ref.size(dim, deg, sf)
        m = arg if z == size else np.resize(mat, (z, z))
        return lambda **o: core.varfd(dim, deg, dim - 1, m,
                                  do_fourier=c['four'], index_set=sf, **o)
    if fn == 'tens_list':
        return lambda **o: core.tensorize(
            m1 if c['four'] else v1, **kw, **o) \
            if not (c['sparse'] and c['four']) else \
            core.tensorize(m1, sparse=True, **kw, **o)
    if fn == 'tens_dict':
        a = m1 if c['four'] else v1
        d = {frozenset({int(dim != 1)}): a[0],
             frozenset({int(dim == 1)}): a[1]}
        return lambda **o: core.tensorize(d, **kw, **o)
    if fn == 'tens_id':
        a = m1[0] if c['four'] else v1[0]
        return lambda **o: core.tensorize(a, dim=max(dim, 2), direction=dim - 1,
                                      **kw, **o)
    if fn == 'project_v':
        return lambda **o: core.project(co, dim, [0], **kw, **o)
    if fn == 'project_m':
        return lambda **o: core.project(arg, dim, [0], **kw, **o)
    if fn == 'inner':
        d2 = [list(range(dim)), [k + 1 for k in range(dim)]][c['four']]
        return lambda **o: core.inner(co, co[::-1].copy(), list(range(dim)), d2,
                                  **kw, **o)
    if fn == 'size':
        return lambda **o: core.iterator_size(dim, deg, **kw, **o)
    if fn == 'get_degree':
        return lambda **o: core.iterator_get_degree(dim, size, **kw, **o)
    if fn == 'list':
        return lambda **o: core.iterator_list_indices(dim, deg, **kw, **o)
    mi = [int(k) for k in rng.permutation([deg, 0, 1, 2, 0, 3][:dim + 3])]
    return lambda **o: core.iterator_index(mi, index_set='triangle'
                                       if c['four'] else 'cube', **o)


def check(sub, c):
    import hashlib
    import os
    import subprocess
    import sys
    import json
    import numpy as np
    import scipy.sparse as ss
    from vlib.api import hm, fail, fresh_dir, SCRATCH
    import importlib
    hcache = importlib.import_module("hermipy.cache")
    calls = c['calls']
    cdir, empty = fresh_dir('cache09'), os.path.join(SCRATCH, 'none')
    hm.settings['cachedir'] = cdir
    labels = []

    def uncached(fn):
        hm.settings.update(cache=False, cachedir=fresh_dir('none'))
        try:
            return fn()
        finally:
            hm.settings['cachedir'] = cdir
    assert empty != cdir

    def by(call):
        if call.get('by') != 'key':
            hm.settings['cache'] = call['cache']
            return {}
        hm.settings['cache'] = not call['cache']
        return {'cache': call['cache']}

    if sub in ('user', 'large'):
        count = [0]

        def value(tag, args, kw):
            txt = tag + canon(args) + canon(kw)
            return np.frombuffer(hashlib.md5(txt.encode()).digest(),
                                 np.uint8).astype(float)

        def f0(*args, **kw):
            count[0] += 1
            return value('', args, kw)

        def f1(*args, **kw):
            count[0] += 1
            return value('f1', args, kw).astype(int).reshape(4, 4)

        def f2(*args, **kw):
            count[0] += 1
            return ss.csr_matrix(value('', args, kw).reshape(2, 8) % 3)

        def f3(*args, **kw):
            count[0] += 1
            v = value('f3', args, kw)
            k = int(v[0]) % 5
            return [float(v[1] + v[2]/7), int(v[1]*256 + v[2]),
                    (v[:2], v[2:5]), float('inf'), v[:8] + 1j*v[8:]][k]
        raw = [f0, f1, f2, f3]
        fns = [hcache.cache()(f) for f in raw]
        seen = {}
        for k, call in enumerate(calls):
            args = [decode(a) for a in call['args']]
            kw = {n: decode(a) for n, a in call['kw'].items()}
            keep = canon(args) + canon(kw)
            want = raw[call['fn']](*args, **kw)
            before = count[0]
            got = fns[call['fn']](*args, **kw, **by(call))
            same('call %d' % k, got, want)
            if canon(args) + canon(kw) != keep:
                fail('call %d changed its arguments', k)
            ident = (call['fn'], keep, json.dumps([
                call['args'], call['kw']]))
            if not call['cache'] and count[0] == before:
                fail('call %d was not computed', k)
            if call['cache'] and ident in seen and \
                    not isinstance(want, tuple):
                labels.append('repeated')
                if count[0] != before:
                    fail('call %d was computed again', k)
            if call['cache'] and call.get('by') != 'key':
                seen[ident] = True
            # what the caller does with a result stays with the caller
            if isinstance(got, np.ndarray) and got.size:
                got[...] = 7
        return len(set(json.dumps([x['fn'], x['args'], x['kw']])
                       for x in calls)) > 1, sorted(set(labels)) + [
                           'f%d' % calls[0]['fn']]

    if sub == 'solve':
        for k, call in enumerate(calls):
            n = call['n']
            rng = np.random.RandomState(call['ms'])
            m = rng.uniform(-1, 1, (n, n)) + n*np.eye(n)
            b = np.random.RandomState(call['bs'] + 9).uniform(-1, 1, n)
            pos = hm.Position(dim=1)
            var = hm.Varf(ss.csr_matrix(m) if call['sparse'] else m, pos)
            hm.settings['cache'] = call['cache']
            sol = var.solve(hm.Series(b, pos), use_gmres=call['gmres'],
                            **({'tol': 1e-11} if call['gmres'] else {}))
            err = np.abs(m.dot(sol.coeffs) - b).max()
            if not err < 1e-8:
                fail('call %d: the residual is %g', k, err)
        return len(calls) > 1, ['solve']

    thunks = [core_call(x) for x in calls]
    want = [uncached(t) for t in thunks]
    if sub == 'core':
        sizes = {}
        for k, (x, t) in enumerate(zip(calls, thunks)):
            before = set(os.listdir(cdir))
            got = t(**by(x))
            same('call %d (%s)' % (k, x['fn']), got, want[k])
            key = json.dumps({q: x[q] for q in x
                              if q not in ('cache', 'by')},
                             sort_keys=True)
            if x['cache'] and key in sizes:
                labels.append('repeated')
                if set(os.listdir(cdir)) != before:
                    fail('call %d was saved again', k)
            if x['cache'] and x.get('by') != 'key':
                sizes[key] = True
            if isinstance(got, np.ndarray):
                got[...] = 7
        distinct = set(json.dumps(x, sort_keys=True) for x in calls)
        return len(distinct) > 1, sorted(set(labels)) + sorted(
            set(x['fn'] for x in calls))

    # restart: the calls alternate between two other processes
    spec = os.path.join(SCRATCH, 'c09.json')
    prog = ('import sys, json, pickle\n'
            'from vlib import api\n'
            'from vlib.props import c09\n'
            'd = json.load(open(sys.argv[1]))\n'
            'api.reset()\n'
            'api.hm.settings.update(cache=True, cachedir=d["dir"])\n'
            'r = [c09.core_call(x)() for x in d["calls"]]\n'
            'pickle.dump(r, open(sys.argv[1] + ".out", "wb"))\n')
    import pickle
    before = None
    for turn in range(2):
        with open(spec, 'w') as fh:
            json.dump({'dir': cdir, 'calls': calls}, fh)
        env = dict(os.environ, PYTHONHASHSEED=str(1 + turn))
        p = subprocess.run([sys.executable, '-c', prog, spec], env=env,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE)
        if p.returncode:
            fail('a process ended with %s', p.stderr.decode()[-300:])
        with open(spec + '.out', 'rb') as fh:
            res = pickle.load(fh)
        for k in range(len(calls)):
            same('process %d, call %d (%s)' % (turn, k, calls[k]['fn']),
                 res[k], want[k])
        files = set(os.listdir(cdir))
        if before is not None and files != before:
            fail('the second process did not find the entries of the first')
        before = files
    return True, ['restart']
