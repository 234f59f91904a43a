"""Discretised operators hold the integrals of h_i L h_j."""
RULE = ('random coefficients, directions and orders of derivatives, factors, '
        'means, covariances (full ones too), index sets and degrees, against '
        'sums over the nodes with the chain rule and Leibniz rule written '
        'out; non-trivial when a derivative is taken and the set has two '
        'members or more')
ASSUMPTIONS = ['the same index sets as for variational matrices (C05); the '
               'order of derivatives is at most 5']
ROUND = {'varfd': 15, 'op': 6, 'core': 60, 'poly': 12}
QUICK_S = 28


def s_core():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 5))
        s = draw(st.sampled_from(gen.SETS))
        kind = draw(st.sampled_from(['hermite', 'fourier'])) \
            if dim == 1 or s == 'cube' else 'hermite'
        deg = draw(gen.degree_for(dim, s, 130 if dim == 1 else 70,
                                  120 if dim == 1 else 20))
        if kind == 'fourier':
            deg -= deg % 2
            deg = max(deg, 2 if s.startswith('cross') else 0)
        return {'dim': dim, 'set': s, 'kind': kind, 'degree': deg,
                'dir': draw(st.integers(0, dim - 1)),
                'sparse': draw(st.booleans()), 'mag': draw(gen.MODES),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def base(draw, top):
    from hypothesis import strategies as st
    from vlib import gen
    from vlib.props.c05 import exact_set
    q = draw(gen.quad_of(factor=True, max_pts=900, n=(1, 10)))
    dim = len(q['dirs'])
    s = draw(st.sampled_from(gen.SETS))
    deg = draw(gen.degree_for(dim, s, 30, top))
    if 'fourier' in q['types']:
        deg -= deg % 2
    deg = max(deg, 2 if s.startswith('cross') else 0)
    ex = exact_set(s, q['types'])
    if not ex:
        q['cov'] = [[q['cov'][i][j] if i == j else 0.
                     for j in range(dim)] for i in range(dim)]
    return q, s, deg, ex


def s_varfd():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q, s, deg, ex = base(draw, 9)
        f = draw(gen.expr_of(q['dirs'], terms=2, factors=2,
                             coupled=gen.COUPLED if ex else [],
                             atoms=gen.ATOMS if ex else gen.SEPARABLE))
        return {'q': q, 'set': s, 'degree': deg, 'f': f,
                'dirs': draw(st.lists(st.sampled_from(q['dirs']),
                                      max_size=3)),
                'tensorize': draw(st.sampled_from([True, False, None]))
                if ex else True,
                'sparse': draw(st.sampled_from([True, False, None]))}
    return case()


COEFF = ['{x}', '{x}**2', '{x}**3', 'cos({x})', 'exp({x}/4)', 'sin(2*{x})']


def s_op():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q, s, deg, ex = base(draw, 7)
        dim = len(q['dirs'])
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            f = draw(gen.expr_of(q['dirs'], terms=1, factors=2,
                                 coupled=['({x} + {y})', 'cos({x} - {y})']
                                 if ex else [], atoms=COEFF))
            al = [0]*dim
            one = draw(st.booleans())
            k = draw(st.integers(0, dim - 1))
            for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5]))):
                al[k if one else draw(st.integers(0, dim - 1))] += 1
            terms.append([f, al])
        return {'q': q, 'set': s, 'degree': deg, 'terms': terms,
                'sparse': draw(st.sampled_from([True, False, None])),
                'as': draw(st.sampled_from(['sympy', 'Operator']))}
    return case()


def s_poly():
    """Operators with polynomial coefficients, whose matrices are known
    exactly, whatever the degree."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, [0, 110, 60, 45, 40][dim],
                                  100 if dim == 1 else 16))
        terms = []
        for _ in range(draw(st.sampled_from([1, 2, 2, 3, 1, 2, 3, 0]))):
            al = [0]*dim
            one = draw(st.booleans())
            k = draw(st.integers(0, dim - 1))
            for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5]))):
                al[k if one else draw(st.integers(0, dim - 1))] += 1
            terms.append([draw(gen.num()), [draw(st.integers(0, 3))
                                            for _ in range(dim)], al])
        return {'set': s, 'degree': deg, 'terms': terms,
                'extra': draw(st.integers(0, 3)),
                'dirs': draw(gen.dirs_of(dim)),
                'mean': draw(gen.vec(dim, gen.num(-2, 2))),
                'var': draw(gen.vec(dim, gen.pos())),
                'factor': draw(st.lists(st.sampled_from(
                    [[0, 0], [0, 0], [-.25, 0], [-.25, .5], [0, -1]]),
                    min_size=dim, max_size=dim)),
                'sparse': draw(st.booleans())}
    return case()


SUBS = {'core': (s_core, 1), 'varfd': (s_varfd, 3), 'op': (s_op, 4),
        'poly': (s_poly, 3)}


def poly(c):
    import math
    import numpy as np
    import scipy.sparse as ss
    import sympy
    from vlib.api import hm, core, close, fail
    s, deg, dirs = c['set'], c['degree'], c['dirs']
    dim = len(dirs)
    mi = core.iterator_list_indices(dim, deg, index_set=s)
    xs = [hm.Function.xyz[d] for d in dirs]
    un = sympy.Function('f')(*xs)
    expr, factor = sympy.Integer(0), []
    mp = np.linalg.matrix_power
    want = size = 0.
    for x, (a, b) in zip(xs, c['factor']):
        factor.append('exp(%r*%s**2 + %r*%s)' % (a, x, b, x))
    for k, ps, al in c['terms']:
        t, part, bound = un, k, abs(k)
        for i in range(dim):
            # enough room for all the products
            n = deg + ps[i] + al[i] + 2
            off, sd = np.sqrt(np.arange(1., n)), math.sqrt(c['var'][i])
            x = c['mean'][i]*np.eye(n) + sd*(np.diag(off, 1) +
                                             np.diag(off, -1))
            a, b = c['factor'][i]
            dx = np.diag(off, 1)/sd + 2*a*x + b*np.eye(n)
            ix = np.ix_(mi[:, i], mi[:, i])
            part = part*mp(x, ps[i]).dot(mp(dx, al[i]))[:deg + 1,
                                                        :deg + 1][ix]
            r = math.sqrt(n)
            xm = abs(c['mean'][i]) + 2*sd*r
            bound *= xm**ps[i]*(r/sd + 2*abs(a)*xm + abs(b))**al[i]
            t = sympy.diff(t, xs[i], al[i]) if al[i] else t
        want, size = want + part, size + bound
        expr += sympy.Float(k)*math.prod(x**e for x, e in zip(xs, ps))*t
    if not expr.atoms(sympy.core.function.AppliedUndef):
        expr = hm.Operator(0, dirs=list(dirs))
    quad = hm.Quad.gauss_hermite(deg + 9 + c['extra'], dirs=list(dirs),
                                 mean=c['mean'],
                                 cov=np.diag(c['var']).tolist(),
                                 factor='*'.join(factor))
    m = quad.discretize_op(expr, deg, index_set=s,
                           sparse=c['sparse']).matrix
    if c['sparse'] is not ss.issparse(m):
        fail('the matrix is a %s', type(m).__name__)
    m = m.toarray() if c['sparse'] else np.asarray(m)
    close('matrix of %s' % expr, m, np.broadcast_to(want, m.shape),
          1e-11*(1 + size))
    return len(mi) > 1 and len(c['terms']) > 0, [s, 'dim%d' % dim, 'degree %d+' % (deg//20*20)]


def check(sub, c):
    import itertools
    import math
    import numpy as np
    import scipy.sparse as ss
    import sympy
    from vlib import mk, ref
    from vlib.api import hm, core, close, fail, magnitudes
    from vlib.props.c05 import tolerance
    s, deg = c['set'], c['degree']
    if sub == 'poly':
        return poly(c)
    if sub == 'core':
        dim, d = c['dim'], c['dir']
        mi = core.iterator_list_indices(dim, deg, index_set=s)
        rng = np.random.RandomState(c['seed'])
        m = rng.uniform(-1, 1, (len(mi), len(mi)))
        m = m*magnitudes(rng, m.shape, c['mag'])
        if c['sparse']:
            m = m*(rng.uniform(0, 1, m.shape) < .5)
        got = core.varfd(dim, deg, d, ss.csr_matrix(m) if c['sparse'] else m,
                         do_fourier=int(c['kind'] == 'fourier'), index_set=s)
        if c['sparse'] is not ss.issparse(got):
            fail('the result is a %s', type(got).__name__)
        got = got.toarray() if c['sparse'] else got
        # columns: derivatives of the basis, written in the basis
        where = {tuple(k): i for i, k in enumerate(mi.tolist())}
        want = np.zeros_like(m)
        for j, k in enumerate(mi.tolist()):
            o = list(k)
            if c['kind'] == 'hermite':
                if k[d] == 0:
                    continue
                o[d] -= 1
                want[:, j] = math.sqrt(k[d])*m[:, where[tuple(o)]]
            elif k[d]:
                w = (k[d] + 1)//2
                o[d] = k[d] + 1 if k[d] % 2 else k[d] - 1
                want[:, j] = (w if k[d] % 2 else -w)*m[:, where[tuple(o)]]
        close('varfd', got, want, 1e-12*np.abs(want) + 1e-300)
        return len(mi) > 1, [s, 'dim%d' % dim, c['kind']]
    q = c['q']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    mi = core.iterator_list_indices(g.dim, deg, index_set=s)
    b = g.basis(mi)
    fac = g.value(q['factor'])
    diag = np.abs(g.F - np.diag(np.diag(g.F))).max() == 0
    labels = [q['kind'], s, 'dim%d' % g.dim, 'diag' if diag else 'full cov',
              'factor' if q['factor'] != '1' else 'no factor']
    amp = (deg + 2)*max(1, np.abs(g.inv).sum(axis=0).max())
    kw = {} if c['sparse'] is None else {'sparse': c['sparse']}

    def deriv(al):
        return ref.grad_basis(g.types, mi, g.xi, g.inv, al)

    def compare(what, var, want, tol):
        if var.position != quad.position or var.index_set != s:
            fail('position or index set differ')
        close('factor', quad.discretize(var.factor), fac, 1e-12*(1 + np.abs(fac)))
        if bool(c['sparse']) != ss.issparse(var.matrix):
            fail('sparse=%s, but the matrix is a %s', c['sparse'],
                 type(var.matrix).__name__)
        m = var.matrix.toarray() if ss.issparse(var.matrix) else var.matrix
        close(what, m, want, tol)
        k = len(mi)//2
        row = var[k]
        close('row %d of the object' % k, np.asarray(
            row.toarray().ravel() if ss.issparse(row) else row), m[k], 0)
        if var[k, 0] != m[k, 0]:
            fail('entry (%d, 0) of the object', k)

    if sub == 'varfd':
        f = g.value(c['f'])
        al = [c['dirs'].count(d) for d in g.dirs]
        if c['tensorize'] is not None:
            kw['tensorize'] = c['tensorize']
        var = quad.varfd(c['f'], deg, list(c['dirs']), index_set=s, **kw)
        want = (b*(g.w*f)).dot(deriv(al).T)
        tol = tolerance(g.types, mi, deg, g.xi,
                        np.abs(g.w)*(np.abs(f) + 10)).max()
        compare('varfd of %s' % c['f'], var, want,
                tol*amp**len(c['dirs']))
        return len(mi) > 1 and len(c['dirs']) > 0 and q['n'] > 1, labels + [
            'order %d' % len(c['dirs']), 'tensorize %s' % c['tensorize']]
    # op
    xs = [hm.Function.xyz[d] for d in g.dirs]
    sub_xyz = {sympy.Symbol('x%d' % d, real=True): hm.Function.xyz[d]
               for d in g.dirs}
    names = {**{'x%d' % d: hm.Function.xyz[d] for d in g.dirs},
             **{ref.XYZ[d]: hm.Function.xyz[d] for d in g.dirs}}
    un = sympy.Function('f')(*xs)
    expr = sympy.Integer(0)
    for f, al in c['terms']:
        t = un
        for x, a in zip(xs, al):
            t = sympy.diff(t, x, a) if a else t
        expr += sympy.sympify(f, locals=names)*t
    if not expr.atoms(sympy.core.function.AppliedUndef):
        return False, ['zero operator']
    del sub_xyz
    op = hm.Operator(expr) if c['as'] == 'Operator' else expr
    var = quad.discretize_op(op, deg, index_set=s, **kw)
    facsym = sympy.sympify(q['factor'], locals=names)
    want = np.zeros((len(mi), len(mi)))
    tol = 0.
    ratio = {}

    def rat(gam):
        """d^gam F / F at the nodes"""
        if gam not in ratio:
            e = facsym
            for x, a in zip(xs, gam):
                e = sympy.diff(e, x, a) if a else e
            fn = sympy.lambdify(xs, sympy.simplify(e/facsym), 'numpy')
            v = fn(*[g.x[:, i] for i in range(g.dim)])
            ratio[gam] = np.broadcast_to(np.asarray(v, float), g.w.shape)
        return ratio[gam]

    for f, al in c['terms']:
        v = g.value(f)
        for be in itertools.product(*[range(a + 1) for a in al]):
            cf = math.prod(math.comb(a, k) for a, k in zip(al, be))
            r = cf*v*rat(tuple(a - k for a, k in zip(al, be)))
            want = want + (b*(g.w*r)).dot(deriv(be).T)
            tol = tol + tolerance(
                g.types, mi, deg, g.xi,
                np.abs(g.w)*(np.abs(r) + 10)).max()*amp**sum(be)
    compare('operator %s' % expr, var, want, tol)
    order = max(sum(al) for _, al in c['terms'])
    return len(mi) > 1 and order > 0 and q['n'] > 1, labels + [
        'order %d' % order, 'sparse %s' % c['sparse']]
