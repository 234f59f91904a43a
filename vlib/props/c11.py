"""Functions are evaluated at the mapped nodes, in row-major order."""
RULE = ('random expressions (also roots, logarithms, powers, absolute values, '
        'nested calls, long constants) over random quadratures, directions, '
        'means and full covariances, different numbers of nodes per '
        'direction, with the real compiler; against numpy at mean + F node; '
        'non-trivial when the values are not all equal')
ASSUMPTIONS = ['expressions that sympy writes as C and that are finite at '
               'the nodes']
REAL_CXX = True
ROUND = {'expr': 5, 'scaled': 5, 'long': 3, 'geom': 60, 'nodes': 40}
QUICK_S = 26

MORE = ['Abs({x})', 'log(3 + {x}**2)', 'atan({x})', 'cosh({x}/3)',
        '(2 + {x}**2)**(-3)', '(2 + {x}**2)**(3/2)', 'sqrt(exp({x}) + 2)',
        'exp(cos({x}) - sin({x})**2)', 'Max({x}, 1/2)', 'Min({x}, 0.25)',
        '{x}**7/5040', 'sin({x} + pi/3)', '1.23456789012345678*{x}',
        '1e-8*{x}', '123456789*{x}', '(1 + {x}/3)**5', 'exp(-Abs({x}))',
        'erf({x})', 'tan({x}/9)', '2**({x}/2)', 'atan2({x}, 3)']
TWO = ['cos({x} - 2*{y})', '{x}*{y}', 'exp({x}*{y}/8)', '({x} + {y})**3',
       'Max({x}, {y})', '1/(1 + {x}**2 + {y}**2)', 'sqrt(1 + Abs({x}*{y}))',
       '(2 + {x}**2)**({y}/4)']
BODIES = ['v[0]', '1', 'v[%d]', 'v[0]*v[0] - v[%d]', 'cos(v[%d])',
          'exp(v[0]/4)*v[%d]', '(v[0] < v[%d] ? 1 : 0)*0 + 7*v[%d]']


def s_expr():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(n=(1, 6), max_pts=600))
        e = draw(gen.expr_of(q['dirs'], atoms=gen.ATOMS + MORE, coupled=TWO))
        return {'q': q, 'expr': e}
    return case()


def s_geom():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 4))
        unit = st.one_of(st.just(1.), st.just(1.),
                         st.integers(-14, 6).map(lambda k: 10.**k))
        return {'nodes': [draw(st.lists(gen.num(), min_size=1, max_size=4))
                          for _ in range(dim)],
                'tr': draw(st.one_of(st.just([0.]*dim), gen.vec(dim),
                                     gen.vec(dim, unit))),
                'dil': [[draw(gen.num())*draw(unit) for _ in range(dim)]
                        for _ in range(dim)],
                'body': draw(st.integers(0, len(BODIES) - 1)),
                'd': draw(st.integers(0, dim - 1)),
                'np': draw(st.booleans())}
    return case()


def s_nodes():
    from vlib import gen
    return gen.quad_of(dims=(1, 2, 3, 4), n=(1, 6), max_pts=700,
                       scales=True).map(lambda q: {'q': q})


def s_scaled():
    """A product with a constant of any magnitude."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(n=(1, 6), max_pts=600))
        e = draw(gen.expr_of(q['dirs'], terms=1, factors=2,
                             atoms=gen.ATOMS + MORE[1:9], coupled=TWO[:3]))
        c = '%de%d' % (draw(st.integers(1, 10**draw(st.integers(1, 15)))),
                       draw(st.integers(-60, 30)))
        return {'q': q, 'expr': '%s*%s' % (c, e)}
    return case()


def s_long():
    """Long expressions that differ in one place."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(n=(1, 5), max_pts=200))
        n = draw(st.sampled_from([3, 10, 25, 60]))
        x = st.sampled_from(q['dirs'])
        terms = ['%d*%s(%d*x%d)' % (draw(st.integers(1, 99)), draw(
            st.sampled_from(['cos', 'sin'])), i + 1, draw(x))
            for i in range(n)]
        exprs = [' + '.join(terms)]
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1,
                               max_size=2)):
            # another number of as many digits
            k, t = terms[i].split('*', 1)
            k = int(k) - 1 if len(str(int(k) - 1)) == len(k) and k != '1' \
                else int(k) + 1
            terms[i] = '%d*%s' % (k, t)
            exprs.append(' + '.join(terms))
        return {'q': q, 'exprs': exprs}
    return case()


SUBS = {'expr': (s_expr, 6), 'scaled': (s_scaled, 2), 'long': (s_long, 1),
        'geom': (s_geom, 2), 'nodes': (s_nodes, 2)}


def namespace():
    import numpy as np
    from scipy.special import erf
    return {'Max': np.maximum, 'Min': np.minimum, 'erf': erf, 'tan': np.tan,
            'atan2': np.arctan2}


def check(sub, c):
    import numpy as np
    from vlib import mk, ref
    from vlib.api import core, close, hm
    ref.NS.update(namespace())
    if sub == 'geom':
        nodes, d = c['nodes'], c['d']
        body = BODIES[c['body']].replace('%d', str(d))
        arg = [np.array(n) for n in nodes] if c['np'] else nodes
        tr, dil = np.array(c['tr']), np.array(c['dil'])
        got = core.discretize(body, arg, tr if c['np'] else c['tr'],
                              dil if c['np'] else c['dil'])
        x = ref.grid(nodes)
        x = tr + x.dot(dil.T)
        a, b = x[:, 0], x[:, d]
        if c['body'] == 5 and np.abs(a).max() > 1e3:
            return False, ['overflow']
        # rounding of the coordinates, and what it does to the values
        env = np.abs(tr) + np.abs(ref.grid(nodes)).dot(np.abs(dil.T))
        ea, eb = env[:, 0], env[:, d]
        want = [a, 1 + 0*a, b, a*a - b, np.cos(b), np.exp(a/4)*b,
                7*b][c['body']]
        err = [ea, 0*a, eb, ea*ea + eb, 1 + eb,
               np.exp(a/4)*(eb*(1 + ea)), 7*eb][c['body']]
        close('values on the grid', got, want, 1e-14*err)
        return len(set(want)) > 1, ['dim%d' % len(nodes), 'lengths %d' % len(
            set(len(n) for n in nodes))]
    q = c['q']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    if sub == 'nodes':
        tol = 1e-14*(np.abs(g.mean) + np.abs(g.xi).dot(np.abs(g.F.T)))
        if q['kind'] == 'fourier':
            # the mean and variance are computed from the bounds
            tol = 1e-13*(np.abs(g.mean) + np.sqrt(np.diag(q['cov'])))*(
                1 + np.abs(g.xi))
        close('mapped nodes', quad.mapped_nodes(), g.x, tol)
        for i, d in enumerate(q['dirs']):
            close('coordinate %d' % d, quad.discretize('x%d' % d), g.x[:, i],
                  tol[:, i])
            close('coordinate %d' % d, quad.discretize(ref.XYZ[d]),
                  g.x[:, i], tol[:, i])
        return len(g.x) > 1, [q['kind'], 'dim%d' % len(q['dirs'])]
    if sub == 'long':
        xs = [np.abs(g.value('x%d' % d)).max() for d in q['dirs']]
        for e in c['exprs']:
            close('values of %s' % e, quad.discretize(e), g.value(e),
                  1e-10*(1 + max(xs)))
        return len(g.x) > 1, ['dim%d' % len(q['dirs']), 'long']
    want = g.value(c['expr'])
    if sub == 'scaled':
        const = abs(float(c['expr'].split('*')[0]))
        close('values of %s' % c['expr'], quad.discretize(c['expr']), want,
              1e-10*(np.abs(want) + const*(1 + np.abs(g.x).max())**4))
        return len(set(want)) > 1, ['scaled']
    if not np.isfinite(want).all():
        return False, ['not finite']
    # sympy expands powers
    big = 123456789.**c['expr'].count('123456789')
    for f in (c['expr'], hm.Function(c['expr'], dirs=q['dirs'])):
        got = quad.discretize(f)
        close('values of %s' % c['expr'], got, want,
              1e-9*(1 + np.abs(want) + big*np.abs(g.x).max()**8*1e-2))
    return len(set(want)) > 1, [q['kind'], 'dim%d' % len(q['dirs'])]
