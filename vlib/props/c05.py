"""Variational matrices hold the integrals of f h_i h_j."""
RULE = ('random functions on random quadratures, index sets and degrees, '
        'dense and sparse, against sums over the nodes of f h_i h_j with '
        'independently computed bases; polynomials and single basis '
        'functions of high degree against closed forms; triple products '
        'against quadrature; '
        'non-trivial when the set has two members or more and f is not '
        'constant')
ASSUMPTIONS = ['where products of basis functions leave the doubled index '
               'set (hyperbolic crosses; Fourier directions in triangles and '
               'rectangles of dimension > 1) only functions that the library '
               'tensorizes are generated: see the known findings']
ROUND = {"expr": 10, "poly": 20, "single": 20}


def exact_set(s, types):
    """Products of basis functions stay in the set of twice the degree."""
    if len(types) == 1 or s == 'cube':
        return True
    return s in ('triangle', 'rectangle') and 'fourier' not in types


def s_triple():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({'kind': st.sampled_from(
        ['hermite', 'fourier']), 'degree': st.integers(0, 24)})


def s_core():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 5]))
        types = draw(st.lists(st.sampled_from(['hermite', 'hermite',
                                               'fourier']),
                              min_size=dim, max_size=dim))
        s = draw(st.sampled_from([s for s in gen.SETS
                                  if exact_set(s, types)]))
        four = types == ['fourier']
        deg = draw(gen.degree_for(dim, s, 81 if four else 40 if dim < 5
                                  else 33, 80 if four else 16 if dim == 1
                                  else 8))
        if 'fourier' in types:
            deg -= deg % 2
            if s.startswith('cross'):
                deg = max(deg, 2)
        return {'types': types, 'set': s, 'degree': deg,
                'n': draw(st.integers(1, [0, 20, 8, 5, 3, 2][dim])),
                'sparse': draw(st.booleans()),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_expr():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(factor=True, max_pts=900, n=(1, 12)))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 40, 10))
        if 'fourier' in q['types']:
            deg -= deg % 2
        deg = max(deg, 2 if s.startswith('cross') else 0)
        ex = exact_set(s, q['types'])
        if not ex:      # only what the library tensorizes completely
            q['cov'] = [[q['cov'][i][j] if i == j else 0.
                         for j in range(dim)] for i in range(dim)]
        f = draw(gen.expr_of(q['dirs'], terms=2, factors=2,
                             coupled=gen.COUPLED if ex else [],
                             atoms=gen.ATOMS if ex else gen.SEPARABLE))
        return {'q': q, 'set': s, 'degree': deg, 'f': f,
                'tensorize': draw(st.sampled_from([True, False, None]))
                if ex else True,
                'sparse': draw(st.sampled_from([True, False, None])),
                'as': draw(st.sampled_from(['str', 'Function', 'grid']))
                if ex else 'str'}
    return case()


def s_poly():
    """Polynomials (trigonometric ones in Fourier directions), for which the
    matrices are known exactly, whatever the degree."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 4]))
        types = draw(st.lists(st.sampled_from(['hermite', 'hermite',
                                               'fourier']),
                              min_size=dim, max_size=dim))
        s = draw(st.sampled_from(gen.SETS))
        ex = exact_set(s, types)
        deg = draw(gen.degree_for(dim, s, [0, 130, 70, 60, 50][dim],
                                  120 if dim == 1 else 20))
        if 'fourier' in types:
            deg -= deg % 2
            if s.startswith('cross'):
                deg = max(deg, 2)
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            unit = draw(st.sampled_from([1., 1., 1., 1e-7, 1e-9, 1e-10, 1e6]))
            terms.append([draw(gen.num())*unit, [draw(st.integers(
                0, 4 if t == 'hermite' else 6)) for t in types]])
        return {'types': types, 'set': s, 'degree': deg, 'terms': terms,
                'extra': draw(st.integers(0, 3)),
                'dirs': draw(gen.dirs_of(dim)),
                'mean': draw(gen.vec(dim, gen.num(-2, 2))),
                'var': draw(gen.vec(dim, gen.pos())),
                'how': draw(st.sampled_from(['quad', 'core'] if ex
                                            else ['quad'])),
                'tensorize': draw(st.booleans()) if ex and (
                    deg < 30 or dim == 1) else True,
                'sparse': draw(st.booleans())}
    return case()


def s_single():
    """f is one basis function: the matrix is a slice of the table of triple
    products, whatever the degree."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
        types = draw(st.lists(st.sampled_from(['hermite', 'hermite',
                                               'fourier']),
                              min_size=dim, max_size=dim))
        s = draw(st.sampled_from([s for s in gen.SETS
                                  if exact_set(s, types)]))
        deg = draw(gen.degree_for(dim, s, [0, 110, 60, 40][dim],
                                  [0, 100, 14, 6][dim]))
        if 'fourier' in types:
            deg -= deg % 2
        if s.startswith('cross'):
            deg = max(deg, 2)
        return {'types': types, 'set': s, 'degree': deg,
                'm': draw(st.integers(0, 10**6)),
                'scale': draw(st.sampled_from([1., -2., 1e-6, 1e5])),
                'sparse': draw(st.booleans())}
    return case()


SUBS = {'single': (s_single, 2), 'triple': (s_triple, 1), 'core': (s_core, 4), 'expr': (s_expr, 4),
        'poly': (s_poly, 3)}


def times(kind, n, mean, sd, k):
    """The matrix of the multiplication by x^k (Hermite) or by the k-th
    basis function (Fourier), among the first n + 1 basis functions."""
    import numpy as np
    from vlib import ref
    if kind == 'hermite':
        off = np.sqrt(np.arange(1., n + k + 1))
        x = mean*np.eye(n + k + 1) + sd*(np.diag(off, 1) + np.diag(off, -1))
        return np.linalg.matrix_power(x, k)[:n + 1, :n + 1]
    xi, w = ref.fourier_nodes(2*n + 2*k + 8)
    b = ref.basis1(kind, max(n, k), xi)
    return (b[:n + 1]*(w*b[k])).dot(b[:n + 1].T)


def poly(c):
    import math
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import hm, core, close, fail
    s, deg, types, dirs = c['set'], c['degree'], c['types'], c['dirs']
    dim = len(types)
    mi = core.iterator_list_indices(dim, deg, index_set=s)
    want = size = 0.
    text = []
    for a, ks in c['terms']:
        part, bound, f = a, abs(a), ['(%r)' % a]
        for i, t in enumerate(types):
            k, sd = ks[i], math.sqrt(c['var'][i])
            ix = np.ix_(mi[:, i], mi[:, i])
            part = part*times(t, deg, c['mean'][i], sd, k)[ix]
            # sizes: largest entries of the absolute values
            if t == 'hermite':
                bound = bound*(abs(c['mean'][i]) + 2*sd*math.sqrt(
                    deg + k + 1))**k
                f.append('x%d**%d' % (dirs[i], k))
            elif k:
                ang = '(x%d - (%r))/%r' % (dirs[i], c['mean'][i], sd)
                f.append('%s(%d*(%s))/sqrt(pi)' % (
                    'sin' if k % 2 else 'cos', (k + 1)//2, ang))
            else:
                f.append('1/sqrt(2*pi)')
        want, size = want + part, size + bound
        text.append('*'.join(f))
    text = ' + '.join(text)
    # exact for everything that takes part
    n = deg + 5 + c['extra'] + ('fourier' in types)*(deg + 12)
    nodes, weights = [], []
    for t in types:
        x, w = (ref.gauss_nodes if t == 'hermite' else ref.fourier_nodes)(n)
        nodes.append(x)
        weights.append(w)
    if c['how'] == 'core':
        x = ref.grid(nodes)*np.sqrt(c['var']) + np.array(c['mean'])
        if len(x) > 40000:
            return False, ['too many nodes']
        m = core.varf(deg, ref.evaluate(text, x, dirs), nodes, weights,
                      sparse=c['sparse'], index_set=s,
                      do_fourier=[int(t == 'fourier') for t in types])
    else:
        if not c['tensorize'] and math.prod(map(len, nodes)) > 40000:
            return False, ['too many nodes']
        quad = hm.Quad(nodes, weights, mean=c['mean'], dirs=dirs,
                       types=types, cov=np.diag(c['var']).tolist())
        m = quad.varf(text, deg, index_set=s, sparse=c['sparse'],
                      tensorize=c['tensorize']).matrix
    if c['sparse'] is not isinstance(m, ss.csr_matrix):
        fail('the matrix is a %s', type(m).__name__)
    m = m.toarray() if c['sparse'] else np.asarray(m)
    # small coefficients are dropped below 1e-12
    close('varf of ' + text, m, np.broadcast_to(want, m.shape),
          1e-11*(1 + size))
    return len(mi) > 1 and any(any(k) for _, k in c['terms']), [
        s, 'dim%d' % dim, 'degree %d+' % (deg//20*20), c['how']]


def slice1(kind, m, n):
    """The integrals of h_m h_i h_j, i, j <= n."""
    import numpy as np
    from scipy.special import gammaln
    if kind == 'fourier':
        return times(kind, n, 0, 1, m)
    i = np.arange(n + 1)
    i, j = i[:, None], i[None, :]
    s = (i + j + m)/2
    ok = ((i + j + m) % 2 == 0) & (s >= i) & (s >= j) & (s >= m)

    def g(k):
        return gammaln(np.maximum(k, 0) + 1.)
    e = (g(i) + g(j) + g(m))/2 - g(s - i) - g(s - j) - g(s - m)
    return np.where(ok, np.exp(np.where(ok, e, 0)), 0)


def single(c):
    import math
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import core, close, fail
    s, deg, types = c['set'], c['degree'], c['types']
    dim = len(types)
    mi = core.iterator_list_indices(dim, deg, index_set=s)
    many = core.iterator_list_indices(dim, 2*deg, index_set=s)
    m = many[c['m'] % len(many)]
    want = c['scale']*np.ones((len(mi), len(mi)))
    nodes, weights = [], []
    for i, t in enumerate(types):
        if t == 'hermite':
            x, w = ref.gauss_nodes(2*deg + 2)
        else:
            x, w = ref.fourier_nodes(4*deg + 4)
        nodes.append(x)
        weights.append(w)
        want = want*slice1(t, int(m[i]), deg)[np.ix_(mi[:, i], mi[:, i])]
    if math.prod(map(len, nodes)) > 60000:
        return False, ['too many nodes']
    f = c['scale']*ref.basis(types, [m], ref.grid(nodes))[0]
    got = core.varf(deg, f, nodes, weights, sparse=c['sparse'], index_set=s,
                    do_fourier=[int(t == 'fourier') for t in types])
    if c['sparse'] is not isinstance(got, ss.csr_matrix):
        fail('the matrix is a %s', type(got).__name__)
    got = got.toarray() if c['sparse'] else np.asarray(got)
    # other coefficients of f are rounding errors and dropped
    close('varf of the basis function %s' % list(map(int, m)), got, want,
          3e-10*np.abs(want) + 1e-12*abs(c['scale']))
    return len(mi) > 1 and any(m), [s, 'dim%d' % dim, 'single',
                                    'degree %d+' % (deg//20*20)]


def spread(types, mi, deg):
    """sum over m of |integral of h_m h_i h_j|: how errors of the
    coefficients of f reach the matrix."""
    import numpy as np
    from vlib import ref
    tab = {t: np.abs(ref.triple(t, 2*deg + 2)).sum(axis=0)
           for t in set(types)}
    out = np.ones((len(mi), len(mi)))
    for d, t in enumerate(types):
        out = out*tab[t][np.ix_(mi[:, d], mi[:, d])]
    return out


def tolerance(types, mi, deg, xi, wf):
    import numpy as np
    from vlib import ref
    size = 1.
    for d, t in enumerate(types):
        size = size*np.abs(ref.basis1(t, 2*deg + 2, xi[:, d])).max(axis=0)
    return 2e-13*spread(types, mi, deg)*(1 + np.abs(wf).dot(size))


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import mk, ref
    from vlib.api import hm, core, close, fail
    if sub == 'poly':
        return poly(c)
    if sub == 'single':
        return single(c)
    if sub == 'triple':
        deg = c['degree']
        if c['kind'] == 'fourier':
            deg -= deg % 2
            got = core.triple_products_fourier(deg)
        else:
            got = core.triple_products(deg)
        want = ref.triple(c['kind'], 2*deg)
        if c['kind'] == 'hermite':
            # Gauss quadrature is exact, up to rounding of large terms
            x, w = ref.gauss_nodes(3*deg + 2)
            b = np.abs(ref.basis1('hermite', 2*deg, x))
            amp = np.einsum('iq,jq,kq,q->ijk', b, b[:deg + 1], b[:deg + 1], w)
        else:
            amp = np.ones((2*deg + 1, deg + 1, deg + 1))
        close('triple products', got, want[:, :deg + 1, :deg + 1],
              1e-12*(1 + amp))
        return deg > 0, [c['kind']]

    def dense(m, sparse):
        if sparse is not isinstance(m, ss.csr_matrix):
            fail('the matrix is a %s', type(m).__name__)
        return m.toarray() if sparse else np.asarray(m)

    s, deg = c['set'], c['degree']
    if sub == 'core':
        types, n = c['types'], c['n']
        dim = len(types)
        rng = np.random.RandomState(c['seed'])
        nodes = [np.sort(rng.uniform(-2.5, 2.5, n)) for _ in range(dim)]
        weights = [rng.uniform(0, 1, n) for _ in range(dim)]
        f = rng.uniform(-1, 1, n**dim)
        mi = core.iterator_list_indices(dim, deg, index_set=s)
        xi = ref.grid(nodes)
        b = ref.basis(types, mi, xi)
        wf = ref.wgrid(weights)*f
        got = core.varf(deg, f, nodes, weights, sparse=c['sparse'],
                        do_fourier=[int(t == 'fourier') for t in types],
                        index_set=s)
        close('varf', dense(got, c['sparse']), (b*wf).dot(b.T),
              tolerance(types, mi, deg, xi, wf))
        return len(mi) > 1 and n > 1, [s, 'dim%d' % dim] + sorted(set(types))
    q = c['q']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    if sub == 'cross':      # a known finding, see known_findings.json
        pass
    f = g.value(c['f'])
    arg = f if c['as'] == 'grid' else c['f'] if c['as'] == 'str' else \
        hm.Function(c['f'], dirs=list(g.dirs))
    sparse = c['sparse']
    kw = {} if sparse is None else {'sparse': sparse}
    if c['tensorize'] is not None:
        kw['tensorize'] = c['tensorize']
    var = quad.varf(arg, deg, index_set=s, **kw)
    if var.position != quad.position or var.index_set != s or \
            var.degree != deg and s != 'cross_nc':
        fail('position, index set or degree differ')
    fac = g.value(q['factor'])
    close('factor', quad.discretize(var.factor), fac, 1e-12*(1 + np.abs(fac)))
    mi = core.iterator_list_indices(g.dim, deg, index_set=s)
    b = g.basis(mi)
    m = var.matrix.toarray() if ss.issparse(var.matrix) else var.matrix
    if bool(sparse) != ss.issparse(var.matrix):
        fail('sparse=%s, but the matrix is a %s', sparse,
             type(var.matrix).__name__)
    tol = tolerance(g.types, mi, deg, g.xi, np.abs(g.w)*(np.abs(f) + 10))
    close('varf of ' + c['f'], m, (b*(g.w*f)).dot(b.T), tol)
    return len(mi) > 1 and q['n'] > 1 and 'x' in c['f'], [
        q['kind'], s, 'dim%d' % g.dim, 'tensorize %s' % c['tensorize'],
        'sparse %s' % sparse, c['as']]
