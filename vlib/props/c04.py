"""Integration is the weighted sum over nodes, and exact where Gauss is."""
RULE = ('random quadratures in dimension 1 to 4 and random integrands: '
        'polynomials within the degree of exactness against closed-form '
        'Gaussian moments, trigonometric sums, grids, expressions (tensorized '
        'or not), flat integrals, series and norms; non-trivial when the '
        'integrand is not constant and there are two nodes or more')
ROUND = {'expr': 12, 'poly': 20, 'flat': 12}


def s_poly():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 3), kinds=('gauss',), n=(1, 12),
                             max_pts=1800))
        dim = len(q['dirs'])
        top = 2*q['n'] - 1
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            p, left = [], top
            diag = all(q['cov'][i][j] == 0 for i in range(dim)
                       for j in range(dim) if i != j)
            for _ in range(dim):
                k = draw(st.integers(0, min(9, top if diag else left)))
                left -= k
                p.append(k)
            terms.append([draw(gen.num()), p])
        return {'q': q, 'terms': terms,
                'tensorize': draw(st.sampled_from([True, False, None])),
                'flat': draw(st.integers(0, 3)) == 0}
    return case()


def s_grid():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 3, 4), n=(1, 40), max_pts=2500))
        return {'q': q, 'seed': draw(st.integers(0, 10**6)),
                'mag': draw(st.sampled_from([0, 0, 1, 2, 3, 4]))}
    return case()


def s_expr():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 3, 4), factor=True, n=(1, 14),
                             max_pts=1300))
        return {'q': q, 'f': draw(gen.expr_of(q['dirs'], terms=3, factors=2)),
                'tensorize': draw(st.sampled_from([True, False, None])),
                'as': draw(st.sampled_from(['str', 'str', 'Function',
                                            'sympy', 'grid'])),
                'flat': draw(st.integers(0, 4)) == 0}
    return case()


def s_flat():
    """Many nodes, those far out with tiny weights."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        one = draw(st.booleans())
        q = draw(gen.quad_of(dims=(1,) if one else (1, 2),
                             n=(110, 200) if one else (20, 110),
                             max_pts=4000,
                             kinds=('gauss', 'gauss', 'newton', 'mixed')))
        return {'q': q, 'f': draw(gen.expr_of(q['dirs'], terms=2,
                                              factors=1)),
                'tensorize': draw(st.sampled_from([True, False, None])),
                'flat': draw(st.integers(0, 3)) > 0}
    return case()


def s_fourier():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2), kinds=('fourier',), n=(1, 24)))
        ks = [draw(st.lists(st.integers(0, q['n'] - 1), min_size=2,
                            max_size=2)) for _ in q['dirs']]
        return {'q': q, 'ks': ks, 'tensorize': draw(st.booleans()),
                'fun': [draw(st.sampled_from(['sin', 'cos']))
                        for _ in range(2*len(ks))]}
    return case()


def s_series():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(factor=True, n=(1, 14), max_pts=1300))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        q['factor'] = q['factor'] if draw(st.integers(0, 2)) == 0 else '1'
        deg = draw(gen.degree_for(dim, s, 60, 8))
        if 'fourier' in q['types']:
            deg += deg % 2
        return {'q': q, 'set': s, 'degree': deg,
                'mag': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])),
                'seed': draw(st.integers(0, 10**6))}
    return case()


SUBS = {'poly': (s_poly, 3), 'grid': (s_grid, 1), 'expr': (s_expr, 3),
        'flat': (s_flat, 2), 'fourier': (s_fourier, 1),
        'series': (s_series, 1)}


def weight(g):
    """The density of the Hermite directions."""
    import numpy as np
    ind = [i for i, t in enumerate(g.types) if t == 'hermite']
    if not ind:
        return np.ones(len(g.x))
    cov = np.array(g.q['cov'])[np.ix_(ind, ind)]
    y = (g.x - g.mean)[:, ind]
    e = np.einsum('ni,ij,nj->n', y, np.linalg.inv(cov), y)
    return np.exp(-e/2)/np.sqrt((2*np.pi)**len(ind)*np.linalg.det(cov))


def check(sub, c):
    import numpy as np
    from vlib import mk, ref
    from vlib.api import hm, core, close, magnitudes
    q = c['q']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    labels = [q['kind'], 'dim%d' % g.dim]
    rng = np.random.RandomState(c.get('seed', 0))
    if sub == 'poly':
        text, want, scale = [], 0., 0.
        for a, p in c['terms']:
            text.append('(%r)' % a + ''.join(
                '*x%d**%d' % (d, k) for d, k in zip(g.dirs, p) if k))
            want += a*ref.moment(q['mean'], q['cov'], p)
            scale += abs(a)*g.w.dot(np.prod([np.abs(g.x[:, i])**k for i, k
                                             in enumerate(p)], axis=0))
        text = ' + '.join(text)
        kw = {} if c['tensorize'] is None else {'tensorize': c['tensorize']}
        if c['flat']:
            # the same integral, written with the density inside
            text = hm.Function(text, dirs=list(g.dirs))*hm.Function(
                quad.position.weight(), dirs=list(g.dirs))
            got = quad.integrate(text, flat=True, tensorize=False)
        else:
            got = quad.integrate(text, **kw)
        close('integral of %s' % text, got, want, 1e-12*(scale + 1e-2))
        nt = q['n'] > 1 and any(any(p) and a for a, p in c['terms'])
        diag = np.abs(g.F - np.diag(np.diag(g.F))).max() == 0
        return nt, labels + ['poly', 'diag' if diag else 'full cov',
                             'flat' if c['flat'] else 'weighted']
    if sub == 'grid':
        f = rng.uniform(-3, 3, len(g.xi))
        f *= magnitudes(rng, len(f), c['mag'])
        sc = np.abs(g.w).dot(np.abs(f))
        close('integral of a grid', quad.integrate(f), g.w.dot(f), 1e-12*sc)
        got = core.integrate(f, g.nodes, g.weights,
                             do_fourier=[int(t == 'fourier')
                                         for t in g.types])
        close('core integral', got, g.w.dot(f), 1e-12*sc)
        close('norm 1', quad.norm(f, n=1), sc, 1e-11*sc)
        want = np.sqrt(g.w.dot(f**2))
        close('norm 2', quad.norm(f, n=2), want, 1e-11*want)
        return q['n'] > 1, labels + ['magnitudes %d' % c['mag']]
    if sub in ('expr', 'flat'):
        f = g.value(c['f'])
        kw = {} if c['tensorize'] is None else {'tensorize': c['tensorize']}
        wt = g.w
        if c['flat']:
            wt = g.w/weight(g)
        if not np.isfinite(f).all() or not np.isfinite(wt).all() or \
                np.abs(f).max() > 1e30:
            return False, ['overflow']
        arg = c['f']
        if c.get('as', 'str') != 'str':
            arg = hm.Function(c['f'], dirs=list(g.dirs))
            arg = {'Function': arg, 'sympy': arg.as_xyz(),
                   'grid': f.copy()}[c['as']]
        got = quad.integrate(arg, flat=c['flat'], **kw)
        close('integral of ' + c['f'], got, wt.dot(f),
              5e-12*(np.abs(wt).dot(np.abs(f) + 10) + 1e-2))
        if c['flat'] and (wt >= 0).all():
            want = np.abs(wt).dot(np.abs(f))
            close('flat norm 1', quad.norm(f, n=1, flat=True), want,
                  1e-11*want + 1e-290)
            want = np.sqrt(np.abs(wt).dot(f**2))
            close('flat norm', quad.norm(f, flat=True), want,
                  1e-11*want + 1e-290)
        return q['n'] > 1 and 'x' in c['f'], labels + [
            'flat' if c['flat'] else 'weighted',
            'tensorize %s' % c['tensorize']]
    if sub == 'fourier':
        # products of sines and cosines of the reference angle
        text, want, it = [], 1., iter(c['fun'])
        for i, d in enumerate(g.dirs):
            k, k2 = c['ks'][i]
            k2 = min(k2, q['n'] - 1 - k)     # exact: k + k2 < n
            f1, f2 = next(it), next(it)
            ang = '(x%d - (%r))/%r' % (d, q['mean'][i],
                                       float(np.sqrt(q['cov'][i][i])))
            text.append('%s(%d*(%s))*%s(%d*(%s))' % (f1, k, ang, f2, k2, ang))
            if f1 != f2:
                want = 0.
            elif k == k2 == 0:
                want *= 2*np.pi if f1 == 'cos' else 0.
            else:
                want *= np.pi if k == k2 else 0.
        text = '*'.join(text)
        got = quad.integrate(text, tensorize=c['tensorize'])
        close('integral of ' + text, got, want, 1e-12*(2*np.pi)**g.dim)
        return q['n'] > 1, labels
    if sub == 'series':
        s, deg = c['set'], c['degree']
        if deg == 0 and s.startswith('cross'):
            deg = 2
        mi = core.iterator_list_indices(g.dim, deg, index_set=s)
        co = rng.uniform(-2, 2, len(mi))*magnitudes(rng, len(mi), c['mag'])
        ser = quad.series(co, index_set=s)
        v = co.dot(g.basis(mi))*g.value(q['factor'])
        sc = np.abs(g.w).dot(np.abs(co).dot(
            ref.envelope(g.types, mi, g.xi))
                             * np.abs(g.value(q['factor']))) \
            + np.abs(co).max()
        close('integral of a series', quad.integrate(ser), g.w.dot(v),
              1e-12*sc)
        close('norm of a series', quad.norm(ser, n=1), g.w.dot(np.abs(v)),
              1e-12*sc)
        wt = g.w/weight(g)
        sc2 = np.abs(wt).dot(np.abs(co).dot(ref.envelope(
            g.types, mi, g.xi))*np.abs(g.value(q['factor'])))
        if np.isfinite(sc2):
            close('flat integral of a series', quad.integrate(
                ser, flat=True), wt.dot(v), 1e-11*sc2 + 1e-290)
        if set(g.types) == {'hermite'} and q['kind'] == 'gauss' and \
                q['factor'] == '1' and 2*q['n'] - 1 >= mi.max():
            close('integral against 1', quad.integrate(ser), co[0],
                  1e-9*sc)
        return len(mi) > 1 and q['n'] > 1, labels + [s]
