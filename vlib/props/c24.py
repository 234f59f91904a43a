"""Plots show the values at the nodes."""
RULE = ('random functions, arrays and series (real and complex, with symbolic '
        'and array factors, of other means and variances) on random '
        'quadratures of dimension 1 and 2 and of any directions, drawn on '
        'axes that record what they are given: abscissae are the nodes, '
        'values those of the object there, oriented as x and y, title and '
        'bounds those of the data; coefficients and entries of plotted '
        'series and matrices are theirs; non-trivial in dimension 2 or with '
        'a factor')
ASSUMPTIONS = ['what matplotlib draws from the data is not looked at, '
               'except for lines']
ROUND = {}
QUICK_S = 24


def s_quad():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 2), n=(2, 5), factor=True,
                             diag=True, kinds=('gauss', 'fourier',
                                               'mixed', 'newton')))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 20, 4))
        if 'fourier' in q['types']:
            deg = 2
        return {'q': q, 'set': s, 'degree': deg,
                'arg': draw(st.sampled_from(['function', 'sympy', 'array',
                                             'series', 'complex'])),
                'f': draw(gen.expr_of(q['dirs'], terms=2, factors=2)),
                'factor': draw(st.sampled_from([None, 'sympy', 'array',
                                                'function'])),
                'shift': draw(st.booleans()),
                'bounds': draw(st.booleans()),
                'contours': draw(st.sampled_from([0, 1, 5, 12])),
                'title': draw(st.sampled_from([None, 'a title'])),
                'real': draw(st.integers(0, 5)) == 0,
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_hf():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2), n=(2, 5), factor=True, diag=True,
                             kinds=('gauss', 'fourier', 'newton')))
        return {'q': q, 'mi': draw(st.lists(
            st.integers(0, 4), min_size=len(q['dirs']),
            max_size=len(q['dirs']))), 'bounds': draw(st.booleans())}
    return case()


def s_stream():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(2,), n=(2, 5), factor=True, diag=True,
                             kinds=('gauss', 'newton')))
        s = draw(st.sampled_from(gen.SETS))
        return {'q': q, 'fx': draw(gen.expr_of(q['dirs'], terms=2)),
                'fy': draw(gen.expr_of(q['dirs'], terms=2)),
                'as': draw(st.sampled_from(['function', 'sympy', 'series'])),
                'factor': draw(st.sampled_from([None, 'sympy', 'array'])),
                'set': s, 'degree': draw(gen.degree_for(2, s, 20, 4)),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_coeffs():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 3))
        s = draw(st.sampled_from(gen.SETS))
        big = draw(st.integers(0, 3)) == 0
        return {'dim': dim, 'set': s, 'degree': draw(
            gen.degree_for(dim, s, 160 if big else 25, 150 if big else 6)),
            'sparse': draw(st.booleans()),
            'lines': draw(st.booleans()),
            'seed': draw(st.integers(0, 10**6))}
    return case()


def s_screen():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2), n=(2, 5), diag=True,
                             kinds=('gauss', 'newton')))
        dim = len(q['dirs'])
        s = draw(st.sampled_from(gen.SETS))
        return {'q': q, 'set': s, 'degree': draw(gen.degree_for(dim, s, 20, 4)),
                'what': draw(st.sampled_from(
                    ['array', 'series', 'hf', 'stream', 'coeffs', 'matrix'])),
                'mi': draw(st.lists(st.integers(0, 3), min_size=dim,
                                    max_size=dim)),
                'f': draw(gen.expr_of(q['dirs'], terms=2, factors=2)),
                'bounds': draw(st.booleans()),
                'sparse': draw(st.booleans()),
                'seed': draw(st.integers(0, 10**6))}
    return case()


SUBS = {'quad': (s_quad, 4), 'hf': (s_hf, 1), 'stream': (s_stream, 2),
        'coeffs': (s_coeffs, 1), 'screen': (s_screen, 1)}


class Any:
    """Whatever is asked of it, it does nothing."""
    collections = ()

    def __getattr__(self, name):
        return lambda *a, **k: Any()


class Axes:
    """Records the calls of its methods."""

    def __init__(self):
        self.calls = []
        self.xaxis = self.yaxis = Any()

    def __getattr__(self, name):
        def method(*args, **kwargs):
            self.calls.append((name, args, kwargs))
            return Any()
        return method

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]

    def one(self, name):
        from vlib.api import fail
        r = self.of(name)
        if len(r) != 1:
            fail('%d calls of %s in %s', len(r), name,
                 [c[0] for c in self.calls])
        return r[0]


def lines(ax, name, key):
    out = []
    for a, k in ax.of(name):
        out.append(float(k[key] if key in k else a[0]))
    return sorted(out)


def shown(ax, g, want, tol, title=None):
    """The picture of the values `want` at the nodes of the grid."""
    import numpy as np
    from vlib.api import close, fail
    n = [len(x) for x in g.nodes]
    r = [g.mean[i] + g.F[i][i]*np.array(g.nodes[i]) for i in range(g.dim)]
    if g.dim == 1:
        a, _ = ax.one('plot')
        close('abscissae', np.asarray(a[0]).reshape(-1), r[0],
              1e-11*(1 + np.abs(r[0])))
        close('values', np.asarray(a[1]).reshape(-1), want, tol)
    else:
        a, _ = ax.one('contourf')
        for i in range(2):
            close('axis %d' % i, np.asarray(a[i]).reshape(-1), r[i],
                  1e-11*(1 + np.abs(r[i])))
        # matplotlib: rows are y
        close('values', a[2], want.reshape(n).T, np.broadcast_to(
            tol, want.shape).reshape(n).T)
    a, k = ax.one('set_title')
    got = a[0] if a else k.get('label')
    if title is not None:
        if got != title:
            fail('title %r', got)
    elif np.abs(want).max() < 1e6:
        import re
        nums = re.findall(r'-?\d+\.\d+', got)
        if len(nums) != 2:
            fail('title %r', got)
        t = np.max(tol) + 5.1e-4
        if abs(float(nums[0]) - want.min()) > t or \
                abs(float(nums[1]) - want.max()) > t:
            fail('title %r, values from %g to %g', got, want.min(),
                 want.max())


def check(sub, c):
    import numpy as np
    from vlib import ref, mk
    from vlib.api import hm, core, close, fail
    rng = np.random.RandomState(c.get('seed', 0))
    if sub == 'coeffs':
        return coeffs(c, rng)
    if sub == 'screen':
        return screen(c, rng)
    q = c['q']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    dim, dirs = g.dim, q['dirs']
    loc = 'exp(-x%d**2/4) + x%d' % (dirs[0], dirs[-1])
    ax = Axes()
    if sub == 'hf':
        mi = c['mi']
        b = g.basis([mi])[0]*g.value(q['factor'])
        env = ref.envelope(q['types'], [mi], g.xi)[0]*np.abs(
            g.value(q['factor']))
        if not np.isfinite(env).all():
            return False, []
        if 'fourier' in q['types'] and sum(mi) % 2:
            return False, ['odd Fourier degree']
        quad.plot_hf(list(mi), ax=ax, bounds=c['bounds'])
        shown(ax, g, b, 1e-10*(1e-3 + env))
        want = []
        for i in range(dim):
            w = np.sqrt(2)*np.sqrt(2*mi[i] + 1)*g.F[i][i]
            want.append([g.mean[i] - w, g.mean[i] + w])
        for i, (name, key) in enumerate([('axvline', 'x'),
                                         ('axhline', 'y')]):
            w = want[i] if c['bounds'] and i < dim else []
            close('bounds', lines(ax, name, key), w, 1e-9)
        return dim > 1, ['hf']

    def fac(kind):
        if kind is None:
            return None, 1
        v = g.value(loc)
        if kind == 'array':
            return v.copy(), v
        f = hm.Function(loc, dirs=list(dirs))
        return (f if kind == 'function' else f.as_xyz()), v

    def series(text):
        n = ref.size(dim, c['degree'], c['set'])
        co = np.round(rng.uniform(-1, 1, n), 3)
        p = quad.position
        mean, F, types = g.mean, g.F, q['types']
        if c.get('shift'):
            mean = g.mean + .5
            F = g.F*1.25
            p = hm.Position(mean=mean, cov=F.dot(F.T), dirs=list(dirs),
                            types=list(types))
        xi = (g.x - mean)/np.diag(F)
        mi = core.iterator_list_indices(dim, c['degree'], index_set=c['set'])
        return co, p, ref.basis(types, mi, xi), \
            ref.envelope(types, mi, xi)
    val = g.value(q['factor'])
    if sub == 'stream':
        f, fv = fac(c['factor'])
        if c['as'] == 'series':
            out, vals = [], []
            for t in ('fx', 'fy'):
                co, p, b, env = series(t)
                out.append(hm.Series(co, p, factor=q['factor'],
                                     index_set=c['set']))
                vals.append(co.dot(b)*val*fv)
        else:
            f = None
            out = [hm.Function(c[t], dirs=list(dirs)) for t in ('fx', 'fy')]
            vals = [g.value(c[t]) for t in ('fx', 'fy')]
            if c['as'] == 'sympy':
                out = [o.as_xyz() for o in out]
                if type(out[0]) is not type(out[1]):
                    return False, ['types']
        if not all(np.isfinite(v).all() and np.abs(v).max() < 1e8
                   for v in vals):
            return False, []
        n = [len(x) for x in g.nodes]
        vx, vy = [v.reshape(n) for v in vals]
        x, y = [g.mean[i] + g.F[i][i]*np.array(g.nodes[i]) for i in (0, 1)]
        psi = np.zeros(n)
        psi[1:, 0] = -np.cumsum(vy[1:, 0]*np.diff(x))
        psi[:, 1:] = psi[:, :1] + np.cumsum(vx[:, 1:]*np.diff(y), axis=1)
        kw = {} if f is None else {'factor': f}
        quad.streamlines(out[0], out[1], ax=ax, **kw)
        a, k = ax.one('contour')
        close('x', np.asarray(a[0]), x, 1e-11*(1 + np.abs(x)))
        close('y', np.asarray(a[1]), y, 1e-11*(1 + np.abs(y)))
        close('stream function', a[2], psi.T, 1e-9*(
            1 + np.abs(vals).max()*10))
        return True, ['stream', c['as']]

    kind = c['arg']
    kw = {'ax': ax, 'contours': c['contours']}
    if c['title']:
        kw['title'] = c['title']
    bounds = None
    if kind in ('series', 'complex'):
        f, fv = fac(c['factor'])
        co, p, b, env = series('')
        keep = co.copy()
        if kind == 'complex':
            co = co + 1j*rng.uniform(-1, 1, len(co))
            keep = co.copy()
        arg = hm.Series(co, p, factor=q['factor'], index_set=c['set'])
        want = np.real(co).dot(b)*val*fv
        tol = 1e-9*(1e-3 + np.abs(co).dot(env)*np.abs(val*fv))
        if f is not None:
            kw['factor'] = f
        kw['bounds'] = c['bounds']
        if c['bounds']:
            w = np.sqrt(2)*np.sqrt(2*c['degree'] + 1)
            m, s = np.array(p.mean), np.sqrt(np.diag(np.array(p.cov)))
            bounds = [[m[i] - w*s[i], m[i] + w*s[i]] for i in range(dim)]
    else:
        want = g.value(c['f'])
        tol = 1e-9*(1 + np.abs(want).max())
        arg = want.copy() if kind == 'array' else hm.Function(
            c['f'], dirs=list(dirs))
        if kind == 'sympy':
            arg = arg.as_xyz()
            if not arg.free_symbols and not hasattr(arg, 'subs'):
                return False, []
    if not np.isfinite(want).all() or np.abs(want).max() > 1e8:
        return False, ['not finite']
    quad.plot(arg, **kw)
    shown(ax, g, want, tol, c['title'])
    if bounds is not None:
        close('bounds', lines(ax, 'axvline', 'x'), bounds[0], 1e-9)
        if dim == 2:
            close('bounds', lines(ax, 'axhline', 'y'), bounds[1], 1e-9)
    if dim == 2 and c['contours']:
        a, k = ax.one('contour')
        n = [len(x) for x in g.nodes]
        close('contours', a[2], want.reshape(n).T, np.max(tol))
    if kind in ('series', 'complex'):
        if arg.coeffs.dtype != keep.dtype or (arg.coeffs != keep).any():
            fail('the series has changed')
    if c['real'] and dim == 1:
        import matplotlib.pyplot as plt
        plt.close('all')
        del kw['ax']
        kw.pop('bounds', None)
        quad.plot(arg, **kw)
        ln = plt.gcf().axes[0].lines
        close('line drawn', ln[0].get_ydata(), want, tol)
        plt.close('all')
    return dim > 1 or c['factor'] is not None, [kind, q['kind']]


def coeffs(c, rng):
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import hm, core, close, fail
    dim, s, deg = c['dim'], c['set'], c['degree']
    n = ref.size(dim, deg, s)
    p = hm.Position(dim=dim)
    v = np.round(rng.uniform(-2, 2, n), 3)
    m = np.round(rng.uniform(-2, 2, (n, n)), 3)
    m = m*(rng.uniform(0, 1, (n, n)) < .6)
    mi = np.array(core.iterator_list_indices(dim, deg, index_set=s))
    ax = Axes()
    if dim <= 2:
        hm.Series(v, p, index_set=s).plot(ax=ax)
        if dim == 1:
            a, _ = ax.one('bar')
            got = {int(i): x for i, x in zip(a[0], a[1])}
            want = {int(i): x for i, x in zip(mi[:, 0], v)}
        else:
            a, k = ax.one('scatter')
            got = {(int(i), int(j)): x for i, j, x in zip(
                a[0], a[1], k['c'] if 'c' in k else a[3])}
            want = {tuple(map(int, i)): abs(x) for i, x in zip(mi, v)}
        if got != want:
            fail('coefficients shown: %s, expected %s', got, want)
    ax = Axes()
    mm = ss.csr_matrix(m) if c['sparse'] else m.copy()
    hm.Varf(mm, p, index_set=s).plot(ax=ax, lines=c['lines'])
    a, k = ax.one('scatter')
    got = {(int(i), int(j)): x for i, j, x in zip(
        a[0], a[1], k['c'] if 'c' in k else a[3])}
    want = {(i, j): abs(m[i, j]) for i in range(n) for j in range(n)
            if m[i, j] != 0}
    if got != want:
        d = [(e, got.get(e), want.get(e)) for e in set(got) | set(want)
             if got.get(e) != want.get(e)][:3]
        fail('entries shown differ: %s', d)
    return n > 2, ['coeffs']


def screen(c, rng):
    """Without axes, the figure is shown, once, with the same content."""
    import warnings
    import numpy as np
    import scipy.sparse as ss
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from vlib import ref, mk
    from vlib.api import hm, core, close, fail
    q, what, s = c['q'], c['what'], c['set']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    dim, dirs = g.dim, q['dirs']
    n = ref.size(dim, c['degree'], s)
    mi = np.array(core.iterator_list_indices(dim, c['degree'], index_set=s))
    co = np.round(rng.uniform(.1, 1, n)*rng.choice([-1, 1], n), 3)
    series = hm.Series(co.copy(), quad.position, index_set=s)
    seen, bounds, width = [], [], None
    m = np.round(rng.uniform(.1, 2, (n, n)), 3)*(
        rng.uniform(0, 1, (n, n)) < .6)
    m[0, 0] = 1
    # The figures of other plots do not matter
    plt.close('all')
    if c['seed'] % 3 == 0:
        plt.subplots(1)[1].plot([1, 2], [3, 4])

    def look(*args, **kwargs):
        ax = plt.gcf().axes
        pic = {'title': ax[0].get_title(), 'axes': len(ax),
               'lines': [(np.array(ln.get_xdata(), float),
                          np.array(ln.get_ydata(), float))
                         for ln in ax[0].lines],
               'bars': [(p.get_x() + p.get_width()/2, p.get_height())
                        for p in ax[0].patches],
               'points': [(np.array(p.get_offsets()), p.get_array())
                          for p in ax[0].collections],
               'lim': (ax[0].get_xlim(), ax[0].get_ylim()),
               'bar': ax[1].get_ylim() if len(ax) > 1 else None}
        seen.append(pic)
    want = None
    if what == 'array':
        want = g.value(c['f'])
        if not np.isfinite(want).all() or np.abs(want).max() > 1e6:
            return False, ['not finite']
        arg = want.copy()
    elif what == 'series':
        want, arg = co.dot(ref.basis(q['types'], mi, g.xi)), series
        width = c['degree']*np.ones(dim)
    elif what == 'hf':
        want, width = g.basis([c['mi']])[0], np.array(c['mi'])
    elif what == 'stream' and dim != 2:
        what = 'coeffs'
    if width is not None and c['bounds']:
        w = np.sqrt(2)*np.sqrt(2*width + 1)*np.diag(g.F)
        bounds = [[g.mean[i] - w[i], g.mean[i] + w[i]] for i in range(dim)]
    if want is not None and dim == 2 and np.ptp(want) < 1e-3:
        return False, ['constant']
    show, plt.show = plt.show, look
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if what in ('array', 'series'):
                r = quad.plot(arg, bounds=c['bounds'])
            elif what == 'hf':
                r = quad.plot_hf(list(c['mi']), bounds=c['bounds'])
            elif what == 'stream':
                r = quad.streamlines(series, series)
            elif what == 'coeffs':
                if dim > 2:
                    return False, []
                r = series.plot()
            else:
                r = hm.Varf(ss.csr_matrix(m) if c['sparse'] else m,
                            quad.position, index_set=s).plot()
    finally:
        plt.show = show
        plt.close('all')
    if len(seen) != 1:
        fail('%d figures shown', len(seen))
    pic = seen[0]
    if what in ('array', 'series', 'hf'):
        nums = [float(x) for x in pic['title'].replace(',', ' ').split()
                if x[-1].isdigit()]
        close('title', np.array(nums), np.array([want.min(), want.max()]),
              1e-3 + 1e-9*np.abs(want).max())
        r = [g.mean[i] + g.F[i][i]*np.array(g.nodes[i]) for i in range(dim)]
        if dim == 1:
            curve = [p for p in pic['lines'] if len(p[0]) == len(want)
                     and np.allclose(p[0], r[0], rtol=1e-10, atol=1e-10)]
            if not any(np.allclose(p[1], want, rtol=1e-9, atol=1e-9)
                       for p in curve):
                fail('lines shown %s, values %s', pic['lines'], want)
        else:
            if pic['axes'] != 2:
                fail('%d axes, expected a picture and its scale', pic['axes'])
            lo, hi = pic['bar']
            t = .05*np.ptp(want)
            if not (lo - t <= want.min() <= lo + t and
                    hi - t <= want.max() <= hi + t):
                fail('scale from %g to %g, values from %g to %g', lo, hi,
                     want.min(), want.max())
            if not bounds:
                close('frame', np.array(pic['lim']), np.array(
                    [[r[0][0], r[0][-1]], [r[1][0], r[1][-1]]]),
                    1e-9*(1 + np.abs(np.array(r)).max()))
        ends = [b for b in bounds[0:1] for b in b]
        got = sorted(p[0][0] for p in pic['lines'] if len(p[0]) == 2 and
                     p[0][0] == p[0][1] and list(p[1]) == [0, 1])
        close('bounds', got, ends, 1e-9)
        ends = [b for b in bounds[1:2] for b in b]
        got = sorted(p[1][0] for p in pic['lines'] if len(p[0]) == 2 and
                     p[1][0] == p[1][1] and list(p[0]) == [0, 1])
        close('bounds', got, ends, 1e-9)
    elif what == 'coeffs' and dim == 1:
        got = sorted((int(round(x)), h) for x, h in pic['bars'])
        if got != sorted((int(i), x) for i, x in zip(mi[:, 0], co)):
            fail('bars %s, coefficients %s', got, co)
    elif what in ('coeffs', 'matrix'):
        if pic['axes'] != 2:
            fail('%d axes, expected a picture and its scale', pic['axes'])
        if what == 'coeffs':
            ref_ = {tuple(map(int, i)): abs(x) for i, x in zip(mi, co)}
        else:
            ref_ = {(i, j): abs(m[i, j]) for i in range(n) for j in range(n)
                    if m[i, j] != 0}
        got = {tuple(map(int, p)): v for p, v in zip(*pic['points'][0])}
        if got != ref_:
            fail('points shown %s, expected %s', got, ref_)
    return True, ['shown ' + what]
