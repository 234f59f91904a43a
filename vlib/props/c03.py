"""Transform computes the weighted sums, and evaluation inverts it."""
RULE = ('random quadratures (Gauss-Hermite, Fourier, mixed, Newton-Cotes; any '
        'directions, mean, covariance, factor), index sets, degrees and '
        'functions, against sums over the nodes with independently computed '
        'basis functions; non-trivial when at least two basis functions and '
        'two nodes take part')
ROUND = {'expr': 8}


def types_of(dim):
    from hypothesis import strategies as st
    return st.lists(st.integers(0, 1), min_size=dim, max_size=dim)


def s_core():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 5))
        s = draw(st.sampled_from(gen.SETS))
        n = [6, 60, 20, 6, 4, 3][dim]
        return {'dim': dim, 'set': s, 'n': draw(st.integers(1, n)),
                'degree': draw(gen.degree_for(dim, s, 200,
                                              150 if dim == 1 else 24)),
                'types': draw(types_of(dim)), 'mag': draw(gen.MODES),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_quad():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 3, 4), factor=True, max_pts=1300,
                             n=(1, 120)))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        q['factor'] = q['factor'] if draw(st.integers(0, 3)) == 0 else '1'
        return {'q': q, 'set': s,
                'degree': draw(gen.degree_for(dim, s, 100,
                                              100 if dim == 1 else 20)),
                'mag': draw(gen.MODES),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_expr():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(factor=True, max_pts=1300, n=(1, 14)))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        return {'q': q, 'set': s,
                'degree': draw(gen.degree_for(dim, s, 80, 16)),
                'f': draw(gen.expr_of(q['dirs'], terms=2, factors=2)),
                'tensorize': draw(st.sampled_from([True, False, None])),
                'signif': draw(st.sampled_from([0, 1, 2, 4, 7])),
                'as': draw(st.sampled_from(['str', 'Function', 'sympy']))}
    return case()


def s_round():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(kinds=('gauss', 'fourier', 'mixed'),
                             factor=True, max_pts=3000))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 80, {1: 60, 2: 14}.get(dim, 5)))
        if 'fourier' in q['types']:
            deg -= deg % 2
            if s.startswith('cross'):
                deg = max(deg, 2)
        q['n'] = deg + 1 + draw(st.integers(0, 3))
        q['factor'] = q['factor'] if draw(st.integers(0, 3)) == 0 else '1'
        return {'q': q, 'set': s, 'degree': deg,
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_other():
    """Evaluation at the nodes of another quadrature."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(factor=True, max_pts=1300, n=(1, 14)))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        q['factor'] = q['factor'] if draw(st.integers(0, 3)) == 0 else '1'
        full = any(q['cov'][i][j] for i in range(dim) for j in range(dim)
                   if i != j)
        q2 = draw(gen.quad_of(dims=(dim,), kinds=('gauss', 'newton') if full
                              else ('gauss', 'newton', 'fourier', 'mixed'),
                              max_pts=1300, n=(1, 14), diag=True))
        q2['dirs'] = q['dirs']
        nd = [[q['cov'][i][j] for j in range(dim)] for i in range(dim)]
        if any(nd[i][j] for i in range(dim) for j in range(dim) if i != j):
            k = draw(st.sampled_from([1., 4., .25]))
            q2['cov'] = [[k*e for e in r] for r in nd]
        if draw(st.integers(0, 2)) == 0:      # almost at the same place
            q2['mean'] = list(q['mean'])
            q2['mean'][draw(st.integers(0, dim - 1))] += \
                draw(st.sampled_from([-1, 1]))*10.**-draw(st.integers(3, 9))
        if not full and draw(st.integers(0, 2)) == 0:
            q2['cov'] = [list(r) for r in q['cov']]
            q2['cov'][0][0] *= 1 + 10.**-draw(st.integers(3, 9))
        return {'q': q, 'q2': q2, 'set': s,
                'degree': draw(gen.degree_for(dim, s, 80, 12)),
                'seed': draw(st.integers(0, 10**6))}
    return case()


SUBS = {'core': (s_core, 3), 'quad': (s_quad, 3), 'expr': (s_expr, 3),
        'round': (s_round, 2), 'other': (s_other, 2)}


def fourier_ok(types, degree):
    return degree if 'fourier' not in types else degree - degree % 2


def tols(env, v):
    """Rounding bounds of b v, whose rows are sums over the nodes."""
    import numpy as np
    return 1e-12*env.dot(np.abs(v)) + 1e-300


def check(sub, c):
    import numpy as np
    from vlib import mk, ref
    from vlib.api import hm, core, close, fail, magnitudes
    s, deg = c['set'], c['degree']
    rng = np.random.RandomState(c.get('seed', 0))
    if sub == 'core':
        dim, n = c['dim'], c['n']
        types = ['fourier' if t else 'hermite' for t in c['types']]
        deg = fourier_ok(types, deg)
        if s.startswith('cross') and deg == 0:
            deg = 2
        nodes = [np.sort(rng.uniform(-3, 3, n)) for _ in range(dim)]
        weights = [rng.uniform(-1, 1, n) for _ in range(dim)]
        f = rng.uniform(-2, 2, n**dim)*magnitudes(rng, n**dim, c['mag'])
        mi = core.iterator_list_indices(dim, deg, index_set=s)
        b = ref.basis(types, mi, ref.grid(nodes))
        env = ref.envelope(types, mi, ref.grid(nodes))
        w = ref.wgrid(weights)
        kw = {'do_fourier': c['types'], 'index_set': s}
        got = core.transform(deg, f, nodes, weights, forward=True, **kw)
        close('transform', got, b.dot(w*f),
              tols(env, w*f))
        co = rng.uniform(-2, 2, len(mi))*magnitudes(rng, len(mi), c['mag'])
        got = core.transform(deg, co, nodes, weights, forward=False, **kw)
        close('evaluation', got, co.dot(b),
              tols(env.T, co))
        return len(mi) > 1 and n > 1, [s, 'dim%d' % dim] + sorted(set(types))
    q = c['q']
    deg = fourier_ok(q['types'], deg)
    if s.startswith('cross') and deg == 0:
        deg = 2
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    mi = core.iterator_list_indices(g.dim, deg, index_set=s)
    b = g.basis(mi)
    env = ref.envelope(g.types, mi, g.xi)
    fac = g.value(q['factor'])
    labels = [q['kind'], s, 'dim%d' % g.dim,
              'factor' if q['factor'] != '1' else 'no factor']
    nt = len(mi) > 1 and q['n'] > 1
    if not 1e-100 < np.abs(fac).min() <= np.abs(fac).max() < 1e100:
        return False, ['factor out of range']

    def same_space(ser, deg=deg):
        if ser.position != quad.position or ser.index_set != s:
            fail('the series has another position or index set')
        close('factor of the series', quad.discretize(ser.factor), fac,
              1e-12*(1 + np.abs(fac)))

    if sub == 'quad':
        f = rng.uniform(-2, 2, len(g.xi))*magnitudes(rng, len(g.xi),
                                                     c['mag'])
        if c['seed'] % 2:       # a function with the decay of the factor
            f = f*fac
        ser = quad.transform(f, deg, index_set=s)
        same_space(ser)
        close('transform', ser.coeffs, b.dot(g.w*f/fac),
              tols(env, g.w*f/fac))
        co = rng.uniform(-2, 2, len(mi))*magnitudes(rng, len(mi), c['mag'])
        got = quad.eval(quad.series(co, index_set=s))
        close('eval', got, co.dot(b)*fac,
              2*tols(env.T, co)*np.abs(fac))
        if s == 'triangle':     # the default set, so that an array will do
            close('eval of an array', quad.eval(co), got, 0)
        return nt, labels
    if sub == 'expr':
        f = g.value(c['f'])
        arg = c['f']
        if c['as'] != 'str':
            arg = hm.Function(arg, dirs=list(g.dirs))
            if c['as'] == 'sympy':
                arg = arg.as_xyz()
        ser = quad.transform(arg, deg, index_set=s,
                             tensorize=c['tensorize'])
        same_space(ser)
        # tensorized sums of products cancel: bound by the largest value
        big = env.dot(np.abs(g.w/fac))*(np.abs(f).max() + 10)
        close('transform of ' + c['f'], ser.coeffs, b.dot(g.w*f/fac),
              1e-12*(big + 1))
        k = c.get('signif', 0)
        if k:
            r = quad.transform(arg, deg, index_set=s, significant=k,
                               tensorize=c['tensorize'])
            same_space(r)
            close('coefficients rounded to %d decimals' % k, r.coeffs,
                  ser.coeffs, (.5 + 1e-9)*10.**-k + 1e-12*np.abs(ser.coeffs))
            close('rounded to %d decimals, times a power of 10' % k,
                  r.coeffs*10.**k, np.round(r.coeffs*10.**k),
                  1e-6 + 1e-14*np.abs(r.coeffs)*10.**k)
        return nt, labels + ['tensorize %s' % c['tensorize'], c['as'],
                             'significant' if k else 'exact']
    if sub == 'round':
        co = rng.uniform(-2, 2, len(mi))
        v = quad.eval(quad.series(co, index_set=s))
        ser = quad.transform(v, deg, index_set=s)
        close('transform of the evaluated series', ser.coeffs, co,
              1e-12*(1 + env.dot(g.w*np.abs(co).dot(env))))
        v2 = quad.eval(ser)
        close('values after a round trip', v2, v,
              1e-12*(1 + env.dot(g.w*np.abs(co).dot(env))).dot(env)*(
                  1 + np.abs(fac)))
        if q['factor'] == '1':
            # Parseval
            close('norm', quad.norm(v, n=2)**2, (co**2).sum(),
                  1e-9*(1 + (co**2).sum()))
        return nt, labels
    if sub == 'other':
        q2 = c['q2']
        quad2 = mk.quad(q2)
        g2 = mk.Grid(q2, quad2)
        co = rng.uniform(-2, 2, len(mi))
        ser = hm.Series(co, quad.position, factor=q['factor'], index_set=s)
        got = quad2.eval(ser)
        xi = (g2.x - g.mean).dot(np.array(g.inv).T)
        b2 = ref.basis(g.types, mi, xi)
        fac2 = g2.value(q['factor'])
        close('eval at other nodes', got, co.dot(b2)*fac2,
              10*tols(ref.envelope(g.types, mi, xi).T,
                                    co)*np.abs(fac2) + 1e-300)
        return nt, labels
