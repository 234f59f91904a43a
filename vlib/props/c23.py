"""Results depend on the arguments only, which are left as they were."""
RULE = ('random histories of up to 14 calls of the public interface '
        '(quadratures, functions, operators, series, matrices) on a pool '
        'that grows with the results, under settings that change on the way '
        '(tensorize, sparse, debug, trails, cache); after every call all '
        'objects of the pool, the arrays given and the settings are what '
        'they were; the calls once more in another order on objects made '
        'anew, under other settings, give the same results; non-trivial '
        'with 4 calls or more')
ASSUMPTIONS = ['results are compared to rounding, matrices as dense ones; '
               'eigenvectors are not compared (their start is random)']
ROUND = {'hist': 8}
QUICK_S = 28
OPS = ['integrate', 'flat', 'norm', 'norm1', 'transform', 'array', 'eval',
       'varf', 'varfd', 'op', 'discretize', 'mapped', 'projectq', 'tensq',
       'add', 'sub', 'scale', 'project', 'subdegree', 'to_cross', 'repr',
       'to_function', 'fadd', 'fmul', 'fproject', 'apply', 'solve', 'eigs',
       'elsewhere', 'series', 'eq', 'opcall', 'opmap', 'index', 'coretens', 'refused',
       'rule', 'array2', 'array3', 'complex', 'plot']
SETTINGS = ['tensorize', 'sparse', 'debug', 'trails', 'cache']


def s_hist():
    from hypothesis import strategies as st
    from vlib import gen
    from vlib.props.c05 import exact_set

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 2, 3, 4), n=(2, 4), factor=True,
                             diag=True, kinds=('gauss', 'gauss', 'fourier',
                                               'mixed')))
        s = draw(st.sampled_from(gen.SETS))
        dim = len(q['dirs'])
        if dim > 3:
            q['n'] = 2
        deg = draw(gen.degree_for(dim, s, 16, 4, low=1))
        if 'fourier' in q['types']:
            deg = 2
        # without tensorization the matrices of these sets are known to be
        # inexact (C05): the setting stays on
        sets = SETTINGS if exact_set(s, q['types']) else SETTINGS[1:]
        op = st.tuples(st.sampled_from(OPS), st.integers(0, 99),
                       st.integers(0, 99), st.integers(0, 99),
                       st.sampled_from([None, None, None, None] + sets))
        return {'q': q, 'set': s,
                'n2': draw(st.integers(2, 5 if dim < 4 else 2)),
                'degree': deg,
                'fs': draw(st.lists(gen.expr_of(
                    q['dirs'], atoms=gen.SEPARABLE, coupled=None, terms=2,
                    factors=2), min_size=2, max_size=3)),
                'ops': [list(o) for o in draw(st.lists(
                    op, min_size=2, max_size=14))],
                'other': draw(st.sets(st.sampled_from(sets))
                              .map(sorted)),
                'reverse': draw(st.booleans()),
                'seed': draw(st.integers(0, 10**6))}
    return case()


SUBS = {'hist': (s_hist, 1)}


def picture(o):
    """Everything an object stands for, as plain copies."""
    import numpy as np
    import scipy.sparse as ss
    from vlib.api import hm
    if isinstance(o, hm.Series):
        return ['series', np.array(o.coeffs), o.index_set, int(o.degree),
                picture(o.position), picture(o.factor)]
    if isinstance(o, hm.Varf):
        return ['varf', picture(o.matrix), o.index_set, int(o.degree),
                picture(o.position), picture(o.factor)]
    if isinstance(o, hm.Quad):
        return ['quad', np.array(o.nodes), np.array(o.weights),
                picture(o.position), picture(o.factor)]
    if isinstance(o, hm.Position):
        return ['position', list(o.dirs), np.array(o.mean), np.array(o.cov),
                list(o.types)]
    if isinstance(o, hm.Function):
        return ['function', list(o.dirs), str(o.sym)]
    if isinstance(o, hm.Operator):
        return ['operator', list(o.dirs), str(o.sym)]
    if ss.issparse(o):
        return np.array(o.toarray())
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, (list, tuple)):
        return [picture(x) for x in o]
    if isinstance(o, (float, int, np.floating, np.integer, bool)):
        return np.array(float(o))
    return o


def same(a, b, tol, where=''):
    """None, or where the pictures differ."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return '%s: shapes %s and %s' % (where, a.shape, b.shape)
        if a.size == 0:
            return None
        if tol == 0:
            ok = (a == b) | ((a != a) & (b != b))
        else:
            fin = np.isfinite(a) & np.isfinite(b)
            sc = np.abs(a[fin]).max(initial=0) + 1
            with np.errstate(all='ignore'):
                ok = (np.abs(a - b) <= tol*sc) | ~fin
        if not ok.all():
            i = np.unravel_index(np.argmin(ok), ok.shape)
            return '%s%s: %r and %r' % (where, list(map(int, i)),
                                        a[i].item(), b[i].item())
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: lengths %d and %d' % (where, len(a), len(b))
        name = a[0] if a and isinstance(a[0], str) else ''
        if name in ('function', 'operator') and tol:
            return same_function(a, b, where)
        for k, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol, '%s.%s%d' % (where, name, k))
            if r:
                return r
        return None
    return None if a == b else '%s: %r and %r' % (where, a, b)


def same_function(a, b, where):
    """The texts may be arranged differently, the values not."""
    import numpy as np
    if a[1] != b[1]:
        return '%s: directions %s and %s' % (where, a[1], b[1])
    if a[2] == b[2] or a[0] == 'operator':
        return None
    import sympy
    from vlib.props.c13 import value
    x = np.random.RandomState(5).uniform(-1, 1, (4, len(a[1])))
    loc = {'x%d' % d: sympy.Symbol('x%d' % d, real=True) for d in a[1]}
    va = value(sympy.sympify(a[2], locals=loc), a[1], x)
    vb = value(sympy.sympify(b[2], locals=loc), b[1], x)
    return same(va, vb, 1e-9, where)


def run(c, order, flips, note=None):
    """Results of the calls; note(k, op) after each."""
    import numpy as np
    import sympy
    from vlib import mk, ref
    from vlib.api import hm, core
    q, s, deg = c['q'], c['set'], c['degree']
    dirs, dim = list(q['dirs']), len(q['dirs'])
    rng = np.random.RandomState(c['seed'])
    n = ref.size(dim, deg, s)
    quads = [mk.quad(q), mk.quad(dict(q, n=c['n2']))]
    quads[1] = hm.Quad(quads[1].nodes, quads[1].weights,
                       position=quads[0].position, factor=q['factor'])
    funs = [hm.Function(f, dirs=list(dirs)) for f in c['fs']]
    arrays = [rng.uniform(-1, 1, n), rng.uniform(-1, 1, n),
              rng.uniform(-1, 1, (n, n)) + 4*np.eye(n),
              rng.uniform(-1, 1, q['n']**dim)]
    sers = [quads[0].series(a, index_set=s) for a in arrays[:2]]
    vrfs = [hm.Varf(arrays[2], quads[0].position, factor=quads[0].factor,
                    index_set=s)]
    x = [hm.Function.xyz[d] for d in dirs]
    u = sympy.Function('u')(*x)
    ops = [hm.Operator(x[0]*u.diff(x[-1]) + 2*u, dirs=list(dirs)),
           hm.Operator(u.diff(x[0], 2) - x[-1]*u, dirs=list(dirs))]
    pool = {'quad': quads, 'fun': funs, 'ser': sers, 'varf': vrfs,
            'op': ops, 'array': arrays}
    base = {k: len(v) for k, v in pool.items()}
    mixed = 'fourier' in q['types']
    nodes_l = [np.array(a) for a in quads[0].nodes.tolist()]
    results = {}
    for k in order:
        op, i, j, l, toggle = c['ops'][k]

        # only the base objects: the calls can come in any order
        def get(kind, i):
            return pool[kind][i % base[kind]]
        if toggle is not None and note is not None:
            # settings change on the way in the first run only
            hm.settings[toggle] = not hm.settings[toggle]
        qd, f, g = get('quad', i), get('fun', j), get('fun', l)
        a, b, v = get('ser', i), get('ser', j), get('varf', j)
        d = dirs[j % dim]
        kw = {'index_set': s}
        r = None
        if op == 'integrate':
            r = qd.integrate(f)
        elif op == 'flat':
            r = qd.integrate(f, flat=True)
        elif op == 'norm':
            r = qd.norm(f.sym)
        elif op == 'norm1':
            r = qd.norm(a, n=1)
        elif op == 'transform':
            r = qd.transform(f, deg, index_set=s)
        elif op == 'array':
            r = quads[0].transform(get('array', 3), deg, index_set=s)
        elif op == 'eval':
            r = qd.eval(a)
        elif op == 'elsewhere':
            p = hm.Position(mean=[.25 + l/99]*dim, cov=[
                [2. + i/99 if e == h else 0. for e in range(dim)]
                for h in range(dim)], dirs=list(dirs),
                types=list(q['types']))
            e = hm.Series(get('array', j % 2), p, index_set=s)
            r = qd.eval(e)
        elif op == 'varf':
            r = qd.varf(f, deg, **kw)
        elif op == 'varfd':
            r = qd.varfd(f, deg, [d, dirs[l % dim]][:1 + l % 2], **kw)
        elif op == 'op':
            if not mixed or dim == 1:
                r = qd.discretize_op(get('op', j), deg, index_set=s)
        elif op == 'discretize':
            r = qd.discretize(f)
        elif op == 'mapped':
            r = qd.mapped_nodes()
        elif op == 'projectq':
            r = qd.project([d])
        elif op == 'tensq':
            if dim > 1:
                rest = [e for e in dirs if e != d]
                r = qd.project([d])*qd.project(rest)
        elif op == 'add':
            r = [a + b, v + v]
        elif op == 'sub':
            r = [a - b, v - v*2]
        elif op == 'scale':
            r = [a*2., -b, .5*v, a/4]
        elif op == 'project':
            if not (s == 'rectangle' and d != dirs[0]):
                r = [a.project(d), v.project(d)]
        elif op == 'subdegree':
            if s != 'cross_nc':
                r = [a.subdegree(1), a.subdegree(deg + 1), v.subdegree(1)]
        elif op == 'to_cross':
            if s == 'triangle' and deg - dim + 1 >= 1:
                r = [a.to_cross(deg - dim + 1), v.to_cross(deg - dim + 1)]
        elif op == 'repr':
            r = [repr(o) and None for o in (a, qd, f, qd.position,
                                            get('op', j))]
            r = None
        elif op == 'to_function':
            if n <= 10:
                r = a.to_function()
        elif op == 'fadd':
            r = [f + g, f + g*(-1)]
        elif op == 'fmul':
            r = [f*g, f*2]
        elif op == 'fproject':
            t = hm.Function('cos(x%d)' % d, dirs=list(dirs))
            r = t.project([d])
        elif op == 'apply':
            r = v(a)
        elif op == 'solve':
            r = v.solve(a, use_gmres=False)
        elif op == 'eigs':
            if n > 4:
                m = v.matrix.toarray() if v.is_sparse else v.matrix
                top = np.sort(np.abs(np.linalg.eigvals(m)))[::-1]
                from scipy.sparse.linalg import ArpackError
                try:
                    ev = abs(v.eigs(k=1, which='LM')[0])
                except ArpackError:     # not a matrix for this method
                    ev = None
                if top[0] > .1*np.linalg.norm(m, 2) and top[1] < .9*top[0]:
                    r = ev
        elif op == 'series':
            r = qd.series(get('array', i % 2), index_set=s)
        elif op == 'eq':
            r = [bool(a == b), bool(v == v), bool(quads[0] == quads[1]),
                 bool(f == g)]
        elif op == 'opcall':
            r = get('op', i)(f)
        elif op == 'opmap':
            e = hm.Function('exp(-x%d**2/4)' % d, dirs=list(dirs))
            r = get('op', i).map(e)
        elif op == 'refused':
            call = [lambda: qd.varf(f, deg, index_set='none'),
                    lambda: qd.varfd(f, deg, [d], index_set='none'),
                    lambda: qd.transform(f, deg, index_set='none'),
                    lambda: qd.discretize_op(get('op', l), deg,
                                             index_set='none'),
                    lambda: a + a.project(d) if dim > 1 else a + 'x',
                    lambda: v(v), lambda: qd.integrate('nothing'),
                    lambda: qd.project([7]), lambda: f.project([7]),
                    lambda: qd.eval('nothing')][l % 10]
            try:
                call()
                r = np.array(0.)
            except Exception:
                r = np.array(1.)
        elif op == 'rule':
            m = [3, 10, 40, 64, 100, 130, 150][l % 7]
            z = hm.Quad.gauss_hermite(m, dirs=[j % 3]) if i % 2 else \
                hm.Quad.fourier(m, dirs=[j % 3])
            w = hm.Quad.gauss_hermite(m, dirs=[j % 3]) if i % 2 else \
                hm.Quad.fourier(m, dirs=[j % 3])
            if not z == w:
                from vlib.api import fail
                fail('the rule with %d points differs the second time', m)
            r = [z, z.integrate('1')]
        elif op == 'array2':
            w = get('array', 3)
            r = [quads[0].norm(w), quads[0].norm(w, n=1),
                 quads[0].integrate(w), quads[0].integrate(w, flat=True),
                 quads[0].norm(w, flat=True)]
        elif op == 'array3':
            w = get('array', 3)
            r = [quads[0].varf(w, deg, **kw),
                 # arrays are not tensorized, see C05
                 quads[0].varfd(w, deg, [d], **kw)
                 if not mixed or dim == 1 or s == 'cube' else None,
                 qd.eval(get('array', 0)) if s == 'triangle' else None,
                 core.integrate(w, quads[0].nodes, quads[0].weights,
                                do_fourier=quads[0].do_fourier)]
        elif op == 'complex':
            z = hm.Series(get('array', 0) + 1j*get('array', 1),
                          quads[0].position, factor=quads[0].factor,
                          index_set=s)
            keep = z.coeffs.copy()
            r = [z + z*.5, v(z), v.solve(z)]
            r += [np.concatenate([x.coeffs.real, x.coeffs.imag])
                  for x in r[:1]]
            r = r[-1]
            if (z.coeffs != keep).any():
                from vlib.api import fail
                fail('a complex series has changed')
        elif op == 'plot':
            if dim < 3 and q['n'] > 1:
                from vlib.props.c24 import Axes
                quads[0].plot([a, f, get('array', 3)][l % 3], ax=Axes())
                a.plot(ax=Axes())
                v.plot(ax=Axes())
        elif op == 'index':
            r = [core.iterator_size(dim, deg, index_set=s),
                 np.array(a.multi_indices())]
        elif op == 'coretens':
            w = np.arange(1., deg + 2)
            h = {frozenset([e]): w + e for e in range(dim)}
            keep = {k2: np.array(v2) for k2, v2 in h.items()}
            r = core.tensorize(h, sparse=False, index_set=s)
            if set(h) != set(keep) or any((h[k2] != keep[k2]).any()
                                          for k2 in keep):
                from vlib.api import fail
                fail('core.tensorize changes the dictionary given')
        results[k] = picture(r)
        if r is not None:
            for o in (r if isinstance(r, list) else [r]):
                kind = {hm.Series: 'ser', hm.Varf: 'varf', hm.Quad: 'quad',
                        hm.Function: 'fun'}.get(type(o))
                if kind and len(pool[kind]) < 12:
                    pool[kind].append(o)
        if note is not None:
            note(k, op, pool, r)
    return results


def check(sub, c):
    from vlib.api import hm, fail, fresh_dir
    hm.settings['cachedir'] = fresh_dir('c23cache')
    seen = {}
    state = {}

    def note(k, op, pool, r):
        for kind in pool:
            for i, o in enumerate(pool[kind]):
                p = picture(o)
                if (kind, i) in seen:
                    w = same(seen[kind, i], p, 0)
                    if w:
                        fail('%s changes a %s: %s', op, kind, w)
                seen[kind, i] = p
        now = dict(hm.settings)
        if k == 0:
            state.clear()
        if state.get('settings') is not None:
            tog = c['ops'][k][4]
            want = dict(state['settings'])
            if tog:
                want[tog] = not want[tog]
            if want != now:
                fail('%s changes the settings: %s, expected %s', op, now,
                     want)
        state['settings'] = now
    n = len(c['ops'])
    first = run(c, range(n), (), note)
    # once more: other order, new objects, other settings
    from vlib import api
    api.reset()
    hm.settings['cachedir'] = fresh_dir('c23cache')
    for s in c['other']:
        hm.settings[s] = not hm.settings[s]
    order = list(range(n))
    order = order[::-1] if c['reverse'] else order[n//2:] + order[:n//2]
    second = run(c, order, ())
    for k in range(n):
        w = same(first[k], second[k], 1e-8)
        if w:
            fail('call %d (%s) gives another result the second time: %s', k,
                 c['ops'][k][0], w)
    return n > 3, sorted({o[0] for o in c['ops']})
