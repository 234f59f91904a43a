"""Results do not depend on how they are computed."""
RULE = ('a random computation (integral, transform, variational matrix, '
        'operator, product, projection, solution) runs under the default '
        'settings and under random ones (sparse, tensorize, debug, trails, '
        'cache, twice) and explicit options; calls of the core, with lists '
        'or arrays, are the same to the last bit; core calls on sparse and dense '
        'arguments of all magnitudes are compared; non-trivial when a setting that '
        'differs from the default is in force and the result has two entries '
        'or more')
ASSUMPTIONS = ['index sets as in C05']
ROUND = {'run': 12, 'core': 60, 'calls': 60}


def s_run():
    from hypothesis import strategies as st
    from vlib import gen
    from vlib.props.c05 import exact_set
    from vlib.props.c06 import COEFF

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(factor=True, max_pts=600, n=(2, 8)))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 30, 8))
        if 'fourier' in q['types']:
            deg -= deg % 2
        deg = max(deg, 2 if s.startswith('cross') else 0)
        ex = exact_set(s, q['types'])
        if not ex:
            q['cov'] = [[q['cov'][i][j] if i == j else 0.
                         for j in range(dim)] for i in range(dim)]
        what = draw(st.sampled_from(['integrate', 'transform', 'varf',
                                     'varfd', 'op', 'apply', 'tensor']))
        if what in ('integrate', 'transform'):
            ex = True
        f = draw(gen.expr_of(q['dirs'], terms=2, factors=2,
                             coupled=gen.COUPLED if ex else [],
                             atoms=gen.ATOMS if ex else gen.SEPARABLE))
        terms = []
        if what in ('op', 'apply'):
            for _ in range(draw(st.integers(1, 2))):
                al = [0]*dim
                for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4,
                                                     5]))):
                    al[draw(st.integers(0, dim - 1))] += 1
                terms.append([draw(gen.expr_of(
                    q['dirs'], terms=1, factors=2, atoms=COEFF,
                    coupled=['({x} + {y})'] if ex else [])), al])
        sets = {'sparse': draw(st.booleans()),
                'debug': draw(st.booleans()), 'trails': draw(st.booleans()),
                'cache': draw(st.booleans()),
                'tensorize': draw(st.booleans()) if ex else True}
        opts = {}
        if draw(st.booleans()):
            opts['sparse'] = draw(st.booleans())
        if ex and draw(st.booleans()):
            opts['tensorize'] = draw(st.booleans())
        return {'q': q, 'set': s, 'degree': deg, 'what': what, 'f': f,
                'terms': terms, 'settings': sets, 'opts': opts,
                'dirs': draw(st.lists(st.sampled_from(q['dirs']),
                                      max_size=2))}
    return case()


def s_core():
    from hypothesis import strategies as st
    from vlib import gen
    from vlib.props.c03 import types_of

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 3))
        s = draw(st.sampled_from(gen.SETS))
        return {'dim': dim, 'set': s,
                'what': draw(st.sampled_from(['varf', 'varfd', 'tensorize',
                                              'project', 'convert'])),
                'n': draw(st.integers(1, [0, 12, 6, 4][dim])),
                'degree': draw(gen.degree_for(dim, s, 40, 16, low=2)),
                'types': draw(types_of(dim)), 'mag': draw(gen.MODES),
                'i': draw(st.integers(0, dim - 1)),
                'density': draw(st.sampled_from([.1, .5, 1.])),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_calls():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        return {'set': draw(st.sampled_from(gen.SETS)),
                'what': draw(st.sampled_from([
                    'discretize', 'integrate', 'transform', 'varf', 'varfd',
                    'tensorize', 'tensorize dict', 'tensorize one',
                    'project', 'project matrix', 'inner', 'index', 'list',
                    'size', 'degree'])),
                'dim': draw(st.integers(1, 4)), 'n': draw(st.integers(1, 5)),
                'degree': draw(st.integers(1, 4)),
                'lists': draw(st.booleans()), 'sparse': draw(st.booleans()),
                'settings': {k: draw(st.booleans()) for k in
                             ('sparse', 'debug', 'trails', 'cache',
                              'tensorize')},
                'mag': draw(gen.MODES), 'seed': draw(st.integers(0, 10**6))}
    return case()


def check_calls(c):
    """Calls of the core, with lists or arrays, are the same to the last bit
    whatever the settings, and leave their arguments as they were."""
    import contextlib
    import copy
    import io
    import itertools
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import hm, core, fail, magnitudes, fresh_dir, reset
    dim, deg, n, s, what = c['dim'], c['degree'], c['n'], c['set'], c['what']
    while n > 1 and n**dim > 300 or ref.size(dim, deg, s) > 60 and deg > 1:
        n, deg = max(n - 1, 1), max(deg - 1, 1)
    rng = np.random.RandomState(c['seed'])

    def arr(*shape):
        a = rng.uniform(-2, 2, shape)*magnitudes(rng, shape, c['mag'])
        return a.tolist() if c['lists'] else a

    def mat(k):
        a = np.asarray(arr(k, k))
        return ss.csr_matrix(a*(rng.uniform(0, 1, a.shape) < .5)) \
            if c['sparse'] else a

    size = ref.size(dim, deg, s)
    nodes, weights = arr(dim, n), arr(dim, n)
    order = rng.permutation(dim).tolist()
    some = order[:rng.randint(1, dim + 1)]
    kw = {'index_set': s}
    if what == 'discretize':
        code = ' + '.join('%d*v[%d]*v[%d]' % (i + 1, i, order[i])
                          for i in range(dim))
        args, kw = [code, nodes, arr(dim), arr(dim, dim)], {}
        fun = core.discretize
    elif what == 'integrate':
        fun, args, kw = core.integrate, [arr(n**dim), nodes, weights], {}
    elif what == 'transform':
        fwd = bool(rng.randint(2))
        fun = core.transform
        args = [deg, arr(n**dim if fwd else size), nodes, weights, fwd]
    elif what == 'varf':
        fun, args = core.varf, [deg, arr(n**dim), nodes, weights]
        kw['sparse'] = c['sparse']
    elif what == 'varfd':
        fun, args = core.varfd, [dim, deg, order[0], mat(size)]
    elif what == 'tensorize':
        fun = core.tensorize
        if rng.randint(2):
            args = [[arr(deg + 1) for _ in range(dim)]]
        else:
            args = [[mat(deg + 1) for _ in range(dim)]]
            kw['sparse'] = bool(rng.randint(2))
    elif what == 'tensorize dict':
        k = rng.randint(1, dim + 1)
        parts = [p for p in (order[:k], order[k:]) if p]
        fun = core.tensorize
        args = [{frozenset(p): np.asarray(arr(ref.size(len(p), deg, s)))
                 for p in parts}]
    elif what == 'tensorize one':
        fun = core.tensorize
        args = [np.asarray(arr(deg + 1)), dim, order[0]]
    elif what == 'project':
        if s == 'rectangle':
            some = order = sorted(set(some) | {0})
        fun, args = core.project, [arr(size), dim, list(some)]
    elif what == 'project matrix':
        if s == 'rectangle':
            some = order = sorted(set(some) | {0})
        fun, args = core.project, [mat(size), dim, list(some)]
    elif what == 'inner':
        if s == 'rectangle':
            kw['index_set'] = 'cube'
            size = ref.size(dim, deg, 'cube')
            if size > 300:
                return False, ['too large']
        d1 = list(range(dim))
        d2 = sorted(d + rng.randint(0, 2)*dim for d in d1)
        fun, args = core.inner, [arr(size), arr(size), d1, d2]
        if ref.size(len(set(d1) ^ set(d2)), deg, kw['index_set']) > 3000:
            return False, ['too large']
    elif what == 'index':
        kw['index_set'] = 'cube' if c['sparse'] else 'triangle'
        m = rng.randint(0, 6, dim)
        fun, args = core.iterator_index, [m.tolist() if c['lists'] else m]
    elif what == 'list':
        fun, args = core.iterator_list_indices, [dim, deg]
    elif what == 'size':
        fun, args = core.iterator_size, [dim, deg]
    else:
        fun, args = core.iterator_get_degree, [dim, size]

    def run():
        a, k = copy.deepcopy(args), copy.deepcopy(kw)
        with contextlib.redirect_stdout(io.StringIO()):
            r = fun(*a, **k)
        if not same(a, args) or k != kw:
            fail('%s changed its arguments', what)
        return r

    def same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(map(same, a, b))
        if isinstance(a, dict):
            return list(a) == list(b) and all(same(a[i], b[i]) for i in a)
        if ss.issparse(a):
            return a.shape == b.shape and all(
                same(getattr(a, x), getattr(b, x)) for x in
                ('data', 'indices', 'indptr'))
        if isinstance(a, np.ndarray):
            return a.dtype == b.dtype and np.array_equal(a, b,
                                                         equal_nan=True)
        return a == b or a != a and b != b

    want = run()
    hm.settings.update(c['settings'])
    hm.settings['cachedir'] = fresh_dir('cache07')
    got = [run(), run()]
    reset()
    for r in got:
        if not same(r, want):
            fail('%s(%s) with %s: %s instead of %s', what, args,
                 c['settings'], r, want)
    return any(c['settings'][k] for k in ('debug', 'trails', 'cache')), [
        'call ' + what, s, 'lists' if c['lists'] else 'arrays']


SUBS = {'run': (s_run, 4), 'core': (s_core, 1), 'calls': (s_calls, 1)}


def check_core(c):
    """The sparse path gives the numbers of the dense one."""
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import core, close, fail, magnitudes
    dim, s, deg, what = c['dim'], c['set'], c['degree'], c['what']
    rng = np.random.RandomState(c['seed'])
    types = c['types']
    four = list(types)
    if any(four):
        deg -= deg % 2
    size = ref.size(dim, deg, s)

    def mat(k):
        m = rng.uniform(-2, 2, (k, k))*magnitudes(rng, (k, k), c['mag'])
        return m*(rng.uniform(0, 1, (k, k)) < c['density'])

    def sparse(m):
        return ss.csr_matrix(m)

    if what == 'varf':
        nodes, weights = [], []
        for t in types:
            x, w = (ref.gauss_nodes if t == 0 else
                    ref.fourier_nodes)(c['n'])
            nodes.append(x)
            weights.append(w)
        k = c['n']**dim
        f = rng.uniform(-2, 2, k)*10.**rng.uniform(-11, 4)

        def run(sp):
            return core.varf(deg, f, nodes, weights, sparse=sp,
                             do_fourier=four, index_set=s)
        dense, sp = run(False), run(True)
        # sums over at most all multi-indices of the double degree
        tol = 1e-13*np.abs(dense).max()
    elif what == 'varfd':
        m = mat(size)
        if four[c['i']] and dim > 1 and s != 'cube':
            return False, ['refused: the set lacks the partner of a sine']
        dense, sp = (core.varfd(dim, deg, c['i'], x,
                                do_fourier=four[c['i']], index_set=s)
                     for x in (m, sparse(m)))
        # one or two terms, each an entry times at most the degree
        tol = 1e-14*(deg + 1)*(np.abs(m).max(axis=0)[None, :] +
                               np.abs(m).max(axis=1)[:, None])
    elif what == 'tensorize':
        ms = [mat(deg + 1) for _ in range(max(2, dim))]
        dense = core.tensorize(ms, sparse=False, index_set=s)
        sp = core.tensorize([sparse(m) for m in ms], sparse=True,
                            index_set=s)
        tol = 1e-13*np.abs(dense)
    elif what == 'project':
        m = mat(size)
        dense = core.project(m, dim, [c['i']], index_set=s)
        sp = core.project(sparse(m), dim, [c['i']], index_set=s)
        tol = 0*np.abs(dense)
    else:
        dense = mat(c['degree'] + c['n'])
        sp = core.to_numpy(core.to_cpp(sparse(dense)))
        tol = 0*np.abs(dense)
    if not ss.issparse(sp):
        fail('%s of a sparse matrix is a %s', what, type(sp).__name__)
    close('sparse ' + what + ' against dense', sp.toarray(),
          np.asarray(dense), tol)
    return size > 1, ['core ' + what, s, 'mag%d' % c['mag']]


def check(sub, c):
    if sub == 'core':
        return check_core(c)
    if sub == 'calls':
        return check_calls(c)
    import contextlib
    import io
    import numpy as np
    import scipy.sparse as ss
    import sympy
    from vlib import mk, ref
    from vlib.api import hm, core, close, fail, fresh_dir, reset
    from vlib.props.c05 import tolerance
    q, s, deg, what = c['q'], c['set'], c['degree'], c['what']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    names = {**{'x%d' % d: hm.Function.xyz[d] for d in g.dirs},
             **{ref.XYZ[d]: hm.Function.xyz[d] for d in g.dirs}}
    xs = [hm.Function.xyz[d] for d in g.dirs]
    op = sympy.Integer(0)
    un = sympy.Function('f')(*xs)
    for f, al in c['terms']:
        t = un
        for x, a in zip(xs, al):
            t = sympy.diff(t, x, a) if a else t
        op += sympy.sympify(f, locals=names)*t
    if c['terms'] and not op.atoms(sympy.core.function.AppliedUndef):
        return False, ['zero operator']

    def run(opts):
        sp = {k: opts[k] for k in opts if k == 'sparse'}
        te = {k: opts[k] for k in opts if k == 'tensorize'}
        if what == 'integrate':
            return quad.integrate(c['f'], **te)
        if what == 'transform':
            return quad.transform(c['f'], deg, index_set=s, **te)
        if what == 'varf':
            return quad.varf(c['f'], deg, index_set=s, **sp, **te)
        if what == 'varfd':
            return quad.varfd(c['f'], deg, list(c['dirs']), index_set=s,
                              **sp, **te)
        if what == 'op':
            return quad.discretize_op(op, deg, index_set=s, **sp)
        if what == 'apply':
            m = quad.discretize_op(op, deg, index_set=s, **sp)
            v = quad.series(np.cos(np.arange(m.matrix.shape[0])),
                            index_set=s)
            return m(v)
        m = quad.varf('1', deg, index_set=s, **sp, **te)
        if g.dim > 1 and s != 'rectangle' and \
                np.abs(g.F - np.diag(np.diag(g.F))).max() == 0:
            return m.project([g.dirs[0]])*m.project(list(g.dirs[1:]))
        return m

    def plain(r):
        if isinstance(r, hm.Varf):
            m = r.matrix
            return m.toarray() if ss.issparse(m) else np.asarray(m)
        if isinstance(r, hm.Series):
            return np.asarray(r.coeffs)
        return np.asarray(r, float)

    def guard(fn, *a):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a)

    base = run({})
    mi = core.iterator_list_indices(g.dim, deg, index_set=s)
    vals = [g.value(t[0]) for t in c['terms']] or [g.value(c['f'])]
    mag = np.abs(g.w)*(sum(np.abs(v) for v in vals) + 10)
    tol = tolerance(g.types, mi, deg, g.xi, mag).max()
    order = max([sum(al) for _, al in c['terms']] + [len(c['dirs'])])
    amp = (deg + 2)*max(1, np.abs(g.inv).sum(axis=0).max())
    if q['factor'] != '1':
        amp = amp*(10 + np.abs(g.x).max())**2
    if what in ('op', 'varfd', 'apply'):
        tol = tol*amp**order*len(mi)*10
    if what == 'tensor':
        tol = tol*100
    tol = 10*tol + 1e-9*np.abs(plain(base)).max()
    if what in ('integrate', 'transform'):
        # sums over the nodes, of the terms of the expanded function
        big = max(1, np.abs(g.x).max())**2
        env = 1. if what == 'integrate' else np.abs(ref.basis(
            g.types, mi, g.xi))
        fac = g.value(q['factor']) if what == 'transform' else 1.
        tol = 1e-12*(env*(np.abs(g.w)*(np.abs(vals[0]) + 10*big)/np.abs(fac))).sum(
            axis=-1)
    hm.settings.update({k: c['settings'][k] for k in ('sparse', 'tensorize')})
    path = guard(run, c['opts'])
    hm.settings.update(c['settings'])
    hm.settings['cachedir'] = fresh_dir('cache07')
    first = guard(run, c['opts'])
    if plain(first).shape != plain(path).shape or \
            not np.array_equal(plain(first), plain(path), equal_nan=True):
        fail('%s with %s differs from that without debug, trails and cache '
             'by %s', what, c['settings'],
             np.abs(plain(first) - plain(path)).max())
    close('result with %s %s' % (c['settings'], c['opts']), plain(first),
          plain(base), tol)
    again = guard(run, c['opts'])
    close('second result with %s' % c['settings'], plain(again),
          plain(first), 1e-13*np.abs(plain(first)).max() + 1e-14)
    if what == 'integrate':
        if not isinstance(first, float) or not isinstance(again, float):
            fail('the integral is a %s, then a %s', type(first), type(again))
    elif type(again) is not type(first) or type(first) is not type(base):
        fail('the type is %s, then %s', type(first), type(again))
    if isinstance(first, hm.Varf):
        want = c['opts'].get('sparse', c['settings']['sparse'])
        if what != 'tensor' and ss.issparse(first.matrix) != want:
            fail('sparse is %s, but the matrix is a %s', want,
                 type(first.matrix).__name__)
        if ss.issparse(again.matrix) != ss.issparse(first.matrix):
            fail('sparse from the cache: %s', ss.issparse(again.matrix))
    if not isinstance(first, float) and hasattr(first, 'position'):
        if first.position != base.position or first.factor != base.factor \
                or first.index_set != base.index_set:
            fail('position, factor or index set differ')
    reset()
    diff = [k for k in c['settings'] if c['settings'][k] !=
            (k == 'tensorize')] + list(c['opts'])
    return len(diff) > 0 and len(mi) > 1, [what, s] + diff
