"""Series and matrices form the vector spaces they stand for."""
RULE = ('random histories of operations (sums, differences, multiples, '
        'quotients, matrix times series, inner products, equality, '
        'to_function) on pools of series and matrices of two spaces that '
        'differ in one respect, dense and sparse; every result against the '
        'same operation on plain arrays, mixtures of spaces must raise, and '
        'after every operation all operands are what they were; non-trivial '
        'when the history has 3 operations or more')
ASSUMPTIONS = ['to_function is compared with eval for factor 1 and a '
               'diagonal covariance']
ROUND = {'function': 15}
QUICK_S = 28
OPS = ['+', '-', 'neg', '*k', 'k*', '/k', 'sum', '==', 'apply', 'inner',
       'get', 'scalar', 'float', 'sub0', 'np*']


def s_space(st, gen):
    @st.composite
    def space(draw):
        dim = draw(st.integers(1, 3))
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 30, 9, low=1))
        a = {'dim': dim, 'set': s, 'degree': deg,
             'dirs': draw(gen.dirs_of(dim)), 'mean': draw(gen.vec(dim)),
             'var': draw(gen.vec(dim, gen.pos())),
             'types': draw(st.sampled_from([['hermite']*dim,
                                            ['fourier']*dim])),
             'factor': draw(st.sampled_from(['1', 'exp(-{x}**2/4)']))}
        a['factor'] = a['factor'].replace('{x}', 'x%d' % a['dirs'][0])
        if dim > 1 and a['types'][0] == 'hermite':
            # a covariance between the first and the last direction
            a['off'] = draw(st.sampled_from([0, 0, .3, -.2]))*min(
                a['var'][0], a['var'][-1])
        b = dict(a)
        how = draw(st.sampled_from(['mean', 'var', 'factor', 'degree', 'set',
                                    'dirs', 'types'] +
                                   ['off', 'off']*(a.get('off', 0) != 0)))
        eps = draw(st.sampled_from([.5, .25, 1e-2, 1e-5, 1e-8]))
        if how == 'mean':
            b['mean'] = [a['mean'][0] + eps] + a['mean'][1:]
        elif how == 'var':
            b['var'] = a['var'][:-1] + [a['var'][-1] + eps]
        elif how == 'off':
            b['off'] = draw(st.sampled_from(
                [0, -a['off'], a['off']/2, a['off']*(1 - 1e-6)]))
        elif how == 'factor':
            b['factor'] = 'exp(-x%d)' % a['dirs'][-1]
        elif how == 'degree':
            b['degree'] = 0 if not s.startswith('cross') and draw(
                st.booleans()) else deg + 1
        elif how == 'set':
            b['set'] = {'cube': 'triangle', 'cross': 'cross_nc',
                        'cross_nc': 'cross'}.get(s, 'cube')
        elif how == 'dirs':
            b['dirs'] = sorted([d for d in range(5)
                                if d not in a['dirs']][:1] + a['dirs'][1:])
            b['factor'] = a['factor'] = '1'
        else:
            b['types'] = ['fourier' if t == 'hermite' else 'hermite'
                          for t in a['types']]
        return {'spaces': [a, b], 'differ': how}
    return space()


def s_hist():
    from hypothesis import strategies as st
    from vlib import gen
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 30),
                   st.integers(0, 30), st.booleans(),
                   st.sampled_from([2, -1, .5, 0, 3., -.25, 1, 1e-14, -3e-13,
                                    1e15, -2**40]))
    return st.tuples(s_space(st, gen), st.fixed_dictionaries({
        'ops': st.lists(op, min_size=1, max_size=14),
        'mag': st.sampled_from([0, 0, 1, 2, 3, 4]),
        'complex': st.sampled_from([False, False, True]),
        'sparse': st.sampled_from([0, .5, 1, 1]),
        'full': st.sampled_from([1, 1, .3]),
        'seed': st.integers(0, 10**6)})).map(lambda t: dict(t[0], **t[1]))


def s_function():
    from hypothesis import strategies as st
    from vlib import gen
    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 3))
        s = draw(st.sampled_from(gen.SETS))
        return {'dim': dim, 'set': s,
                'degree': draw(gen.degree_for(dim, s, 20, 7)),
                'dirs': draw(gen.dirs_of(dim)), 'mean': draw(gen.vec(dim)),
                'var': draw(gen.vec(dim, gen.pos())),
                'types': draw(st.lists(st.sampled_from(
                    ['hermite', 'hermite', 'fourier']), min_size=dim,
                    max_size=dim)),
                'signif': draw(st.sampled_from([0, 0, 2, 10])),
                'mag': draw(gen.MODES),
                'seed': draw(st.integers(0, 10**6))}
    return case()


SUBS = {'hist': (s_hist, 4), 'function': (s_function, 2)}


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import hm, core, close, fail, raises, magnitudes
    rng = np.random.RandomState(c['seed'])
    if sub == 'function':
        return function(c, rng)

    def posn(s):
        cov = np.diag(s['var'])
        if s.get('off'):
            cov[0][-1] = cov[-1][0] = s['off']
        return hm.Position(mean=list(s['mean']), cov=cov,
                           dirs=list(s['dirs']), types=list(s['types']))

    def dense(m):
        return m.toarray() if ss.issparse(m) else np.asarray(m)
    pool = []           # (object, 's' or 'v', space, array)
    for k, s in enumerate(c['spaces']):
        n = ref.size(s['dim'], s['degree'], s['set'])
        for j in range(3 - k):
            v = np.round(rng.uniform(-2, 2, n), 3)
            m = np.round(rng.uniform(-2, 2, (n, n)), 3)
            v = v*magnitudes(rng, v.shape, c['mag'])
            if c.get('complex') and j % 2 == 0:     # eigenvectors can be
                v = v + 1j*rng.uniform(-1, 1)*v[::-1]
            v = v*(rng.uniform(0, 1, n) < c.get('full', 1))
            m = m*magnitudes(rng, m.shape, c['mag'])
            m = m*(rng.uniform(0, 1, (n, n)) < .5)
            pool.append((hm.Series(v.copy(), posn(s), factor=s['factor'],
                                   index_set=s['set']), 's', k, v))
            mm = ss.csr_matrix(m) if rng.uniform() < c.get('sparse', .5) \
                else m.copy()
            pool.append((hm.Varf(mm, posn(s), factor=s['factor'],
                                 index_set=s['set']), 'v', k, m))

    def arr(o):
        return o.coeffs if isinstance(o, hm.Series) else dense(o.matrix)

    def inspect(what, o, kind, k, want, tol=1e-12):
        s = c['spaces'][k]
        if not isinstance(o, hm.Series if kind == 's' else hm.Varf):
            fail('%s is a %s', what, type(o).__name__)
        if o.position != posn(s) or o.index_set != s['set'] or \
                o.factor != hm.Function(s['factor'], dirs=s['dirs']):
            fail('%s: position, index set or factor differ', what)
        if ref.size(s['dim'], o.degree, s['set']) != len(want):
            fail('%s: degree %s', what, o.degree)
        close(what, arr(o), want, tol*(np.abs(want) + size) + 1e-290)
    labels = [c['differ'], 'magnitudes %d' % c['mag']]
    for op, i, j, alike, x in c['ops']:
        a, ka, sa, va = pool[i % len(pool)]
        near = [o for o in pool if o[1] == ka and o[2] == sa] \
            if alike else pool
        b, kb, sb, vb = near[j % len(near)]
        what, new, size = op, None, 0.
        if op in ('+', '-', 'sum'):
            f = {'+': lambda: a + b, '-': lambda: a - b,
                 'sum': lambda: sum([a, b])}[op]
            if ka != kb:
                raises(f)
            elif sa != sb:
                raises(f, ValueError)
                labels.append('mixed')
            else:
                want = va + vb if op != '-' else va - vb
                new, size = (f(), ka, sa, want), np.abs(va) + np.abs(vb)
        elif op == 'neg':
            new = (-a, ka, sa, -va)
        elif op == '*k':
            new = (a*x, ka, sa, va*x)
        elif op == 'k*':
            new = (x*a, ka, sa, va*x)
        elif op == 'np*':
            new = (a*np.float64(x), ka, sa, va*x)
        elif op == '/k':
            if ka == 's' and x != 0:
                new = (a/x, ka, sa, va/x)
        elif op == 'sub0':
            new = (a - a, ka, sa, 0*va)
        elif op == 'scalar':
            if ka == 's' or not ss.issparse(a.matrix):
                new, size = (a + x, ka, sa, va + x), np.abs(va) + abs(x)
        elif op == '==':
            if ka == kb and sa == sb:
                r = a == b
                d = np.sqrt((np.abs(va - vb)**2).sum())
                if d > 1e-9 and r or d == 0 and not r:
                    fail('%s == %s is %s', va, vb, r)
                if not (a == a):
                    fail('an object differs from itself')
                if va.size:
                    # one entry moved a little, two entries exchanged
                    near = [va.copy(), va.copy()]
                    at = np.unravel_index(i*31 % va.size, va.shape)
                    bt = np.unravel_index(j*17 % va.size, va.shape)
                    near[0][at] += max(1e-6, 1e-9*abs(va[at]))
                    near[1][at], near[1][bt] = va[bt], va[at]
                    s = c['spaces'][sa]
                    for v in near:
                        if np.abs(v - va).max() < 1e-8:
                            continue
                        o = hm.Series(v, posn(s), factor=s['factor'],
                                      index_set=s['set']) if ka == 's' else \
                            hm.Varf(ss.csr_matrix(v) if ss.issparse(a.matrix)
                                    else v, posn(s), factor=s['factor'],
                                    index_set=s['set'])
                        if a == o or o == a:
                            fail('%s and %s are equal', va, v)
            elif ka == kb and c['differ'] in ('mean', 'var', 'dirs', 'types',
                                              'degree', 'off'):
                if a == b:
                    fail('objects of different spaces are equal')
        elif op == 'apply':
            if ka == 'v' and kb == 's':
                if sa == sb:
                    new = (a(b), 's', sa, va.dot(vb))
                    size = np.abs(va).dot(np.abs(vb))
                elif c['differ'] != 'factor':
                    raises(lambda: a(b))
        elif op == 'inner':
            if ka == kb == 's' and sa == sb and \
                    not c['spaces'][sa].get('off') and \
                    not np.iscomplexobj(va) and not np.iscomplexobj(vb):
                r = float(a*b)
                w = va.dot(vb)
                close('inner product', r, w, 1e-290 + 1e-11*np.abs(
                    va).dot(np.abs(vb)))
        elif op == 'get':
            if ka == 's':
                close('item', a[i % len(va)], va[i % len(va)],
                      1e-12*np.abs(va[i % len(va)]))
        elif op == 'float':
            raises(lambda: float(a))
        if new is not None:
            inspect(what, *new)
            if len(pool) < 14:
                # from here on its own value, whatever rounding it has
                pool.append(new[:3] + (np.array(arr(new[0])),))
        size = 0.
        for o, kind, k, want in pool:
            inspect('an operand of ' + op, o, kind, k, want)
        labels.append(op)
    return len(c['ops']) > 2, labels


def function(c, rng):
    import numpy as np
    from vlib import ref
    from vlib.api import hm, core, close, fail, magnitudes
    from vlib.props.c13 import value
    dim, s = c['dim'], c['set']
    n = ref.size(dim, c['degree'], s)
    v = np.round(rng.uniform(-2, 2, n), 4)
    if c['mag'] and not c['signif']:
        v = v*magnitudes(rng, n, c['mag'])
    keep = v.copy()
    p = hm.Position(mean=c['mean'], cov=np.diag(c['var']), dirs=c['dirs'],
                    types=c['types'])
    ser = hm.Series(v, p, index_set=s, significant=c['signif'])
    close('the array given', v, keep, 0)
    want = np.array([round(x, c['signif']) for x in v]) if c['signif'] else v
    close('coefficients', ser.coeffs, want, 1e-12*np.abs(want))
    f = ser.to_function()
    if f.dirs != c['dirs']:
        fail('directions of the function: %s', f.dirs)
    x = rng.uniform(-2, 2, (4, dim))*np.sqrt(c['var']) + np.array(c['mean'])
    xi = (x - np.array(c['mean']))/np.sqrt(c['var'])
    mi = core.iterator_list_indices(dim, ser.degree, index_set=s)
    b = ref.basis(c['types'], mi, xi)
    w = want.dot(b)
    sc = np.abs(want).dot(ref.envelope(c['types'], mi, xi))
    # expanded polynomials cancel
    amp = (1 + np.abs(c['mean']).max()/np.sqrt(min(c['var'])))**c['degree']
    close('to_function', value(f.sym, c['dirs'], x), w,
          1e-11*sc*amp*10 + 1e-280)
    return n > 1, c['types']
