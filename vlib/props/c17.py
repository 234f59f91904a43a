"""Invalid arguments raise an exception; nothing else happens."""
RULE = ('a table of ways to make a valid call invalid (wrong sizes, unknown '
        'index sets, directions out of range, mismatched positions, factors '
        'and index sets, odd Fourier degrees, functions that do not compile) '
        'over random dimensions, degrees and index sets; the call must raise '
        'a Python exception in a process that survives, and a valid call '
        'afterwards must still be right; non-trivial: all')
ROUND = {}
QUICK_S = 30

CORE = ['index_set', 'fgrid', 'weights', 'node_len', 'four_len', 'four_odd',
        'coeffs', 'varf_grid', 'varfd_size', 'varfd_dir', 'varfd_nonsquare',
        'tens_sizes', 'tens_dir', 'tens_notsize', 'tens_overlap', 'tens_nonsquare',
        'project_dir', 'project_twice', 'project_nonsquare', 'project_size', 'inner_size', 'inner_degree',
        'discretize_dil', 'discretize_tr', 'discretize_text', 'negative',
        'degree_size', 'integrate_grid', 'mult_len']
HIGH = ['series_len', 'series_add', 'series_type', 'series_mul',
        'series_degree', 'series_factor', 'float', 'varf_len', 'varf_add',
        'varf_mul', 'varf_type', 'varf_call', 'subdegree', 'cross_nc',
        'to_cross', 'position_sizes', 'position_none', 'position_full',
        'position_thrice', 'position_mean', 'project_unsorted',
        'project_missing', 'quad_full_eval', 'op_dirs', 'fun_dirs',
        'fun_coupled', 'fun_name', 'bounds', 'comp_pos', 'comp_len',
        'comp_eq', 'types_shared', 'cross0', 'eval_dim', 'position_other',
        'quad_sizes', 'solve_other', 'call_other', 'op_args',
        'fun_ops', 'plot_args',
        'to_function_full', 'weights_full', 'plot_hf', 'tensor_series',
        'div', 'quad_sets', 'quad_odd']


def s_case(kinds):
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 3))
        s = draw(st.sampled_from(gen.SETS))
        return {'kind': draw(st.sampled_from(kinds)), 'dim': dim, 'set': s,
                # the same parameters serve for some others
                'also': draw(st.lists(st.sampled_from(kinds), max_size=3)),
                'degree': draw(gen.degree_for(dim, s, 40, 5, low=2)),
                'n': draw(st.integers(1, 4)),
                'delta': draw(st.sampled_from([-2, -1, 1, 2, 7])),
                'dirs': draw(gen.dirs_of(dim)),
                'i': draw(st.integers(0, dim - 1)),
                'sparse': draw(st.booleans()),
                'tensorize': draw(st.booleans()),
                # how far an argument is from one that is right
                'step': draw(st.sampled_from([1., 1., .5, .1, -.05, .01,
                                              1e-3, 1e-5, 1e-6])),
                'seed': draw(st.integers(0, 999))}
    return case()


SUBS = {'core': (lambda: s_case(CORE), 1), 'high': (lambda: s_case(HIGH), 1)}


def check(sub, c):
    from vlib.api import reset
    done, labels = False, []
    for kind in [c['kind']] + c.get('also', []):
        r = one(dict(c, kind=kind))
        done, labels = done or r[0], labels + r[1]
        reset()
    return done, labels


def one(c):
    import numpy as np
    import scipy.sparse as ss
    import sympy as sym
    from vlib import ref
    from hermipy.compquad import CompQuad
    from vlib.api import hm, core, raises, fail, close
    dim, s, deg, n, kind = c['dim'], c['set'], c['degree'], c['n'], c['kind']
    dirs, i, delta, step = c['dirs'], c['i'], c['delta'], c['step']
    hm.settings.update(tensorize=c['tensorize'], sparse=c['sparse'])
    rng = np.random.RandomState(c['seed'])
    size = ref.size(dim, deg, s)
    if dim == 1 and kind in ('series_len', 'varf_len', 'degree_size',
                             'inner_size', 'project_size'):
        return False, ['every number is a size']
    sizes = {ref.size(dim, d, s) for d in range(0, 60)}
    bad = size + delta
    while bad in sizes or bad < 0:
        bad += 1                       # not the size of a set
    kw = {'index_set': s}
    nodes = [rng.uniform(-1, 1, n) for _ in range(dim)]
    weights = [rng.uniform(0, 1, n) for _ in range(dim)]
    grid = rng.uniform(-1, 1, n**dim)
    wrong = max(0, n**dim + delta)
    if wrong == n**dim:
        wrong += 1
    co = rng.uniform(-1, 1, size)
    mat = rng.uniform(-1, 1, (size, size))
    sp = ss.csr_matrix if c['sparse'] else np.array
    other = [d for d in range(5) if d not in dirs]
    names = 'nonsense', 'Triangle', '', 'triangle ', 'crossnc'
    odd = deg + 1 - deg % 2
    spare = [d for d in range(6) if d not in dirs][0]

    def longer(arrays, k):
        out = [a.copy() for a in arrays]
        out[k] = np.append(out[k], 1.)
        return out

    def pos(**kwargs):
        args = dict(mean=np.arange(dim)/2., cov=np.eye(dim), dirs=dirs)
        args.update(kwargs)
        return hm.Position(**args)

    def full():
        if dim == 1:
            return None
        c2 = np.diag(2. + np.arange(dim)*[0, .5][c['seed'] % 2])
        j = (i + 1) % dim
        c2[i][j] = c2[j][i] = step/2
        return pos(cov=c2)

    def series(p=None, v=None, **kwargs):
        args = dict(index_set=s)
        args.update(kwargs)
        return hm.Series(co.copy() if v is None else v,
                         pos() if p is None else p, **args)

    def varf(p=None, m=None, **kwargs):
        args = dict(index_set=s)
        args.update(kwargs)
        return hm.Varf(sp(mat if m is None else m),
                       pos() if p is None else p, **args)

    def shifted():
        m = np.arange(dim)/2.
        m[i] += step
        return pos(mean=m)

    def widened():
        c2 = np.eye(dim)
        c2[i][i] += step
        return pos(cov=c2)

    def quad(**kwargs):
        args = dict(dirs=dirs, mean=np.arange(dim)/2., cov=np.eye(dim))
        args.update(kwargs)
        return hm.Quad.gauss_hermite(3, **args)

    def oper(ds):
        return hm.Operator(sym.Function('f')(*[hm.Function.xyz[d]
                                               for d in ds]))

    def same_size():
        # another set with as many indices, in another order if any is
        o = {'cross': 'cross_nc', 'cross_nc': 'cross'}.get(s)
        if o is None:
            o = 'cube' if dim == 1 and s != 'cube' else 'triangle'
            if dim > 1 or s == o:
                fail('skip')
        return {'index_set': o}

    def axes():
        import matplotlib.figure
        return matplotlib.figure.Figure().add_subplot()

    def four(k):
        f = [0]*dim
        f[k] = 1
        return f

    T = {
        'index_set': lambda: [
            lambda nm=nm, f=f: f(nm) for nm in names for f in (
                lambda x: core.iterator_size(dim, deg, index_set=x),
                lambda x: core.iterator_list_indices(dim, deg, index_set=x),
                lambda x: core.iterator_get_degree(dim, size, index_set=x),
                lambda x: core.iterator_index([1]*dim, index_set=x),
                lambda x: core.transform(deg, grid, nodes, weights, True,
                                         index_set=x),
                lambda x: core.varf(deg, grid, nodes, weights, index_set=x),
                lambda x: core.varfd(dim, deg, 0, mat, index_set=x),
                lambda x: core.tensorize([co, co], index_set=x),
                lambda x: core.project(co, dim, [0], index_set=x),
                lambda x: core.inner(co, co, dirs, dirs, index_set=x))],
        'fgrid': lambda: [
            lambda: core.transform(deg, np.zeros(wrong), nodes, weights,
                                   True, **kw)],
        'coeffs': lambda: [
            lambda: core.transform(deg, np.zeros(max(1, size + delta)),
                                   nodes, weights, False, **kw)],
        'integrate_grid': lambda: [
            lambda: core.integrate(np.zeros(wrong), nodes, weights)],
        'varf_grid': lambda: [
            lambda: core.varf(deg, np.zeros(wrong), nodes, weights,
                              sparse=c['sparse'], **kw)],
        'weights': lambda: [
            lambda: core.transform(deg, grid, nodes, weights[:-1] if dim > 1
                                   else weights*2, True, **kw),
            lambda: core.integrate(grid, nodes, weights + weights[:1]),
            lambda: core.varf(deg, grid, nodes, weights + weights[:1], **kw)],
        'node_len': lambda: [
            lambda: core.transform(deg, grid, longer(nodes, i), weights,
                                   True, **kw),
            lambda: core.transform(deg, grid, nodes, longer(weights, i),
                                   True, **kw),
            lambda: core.integrate(grid, nodes, longer(weights, i)),
            lambda: core.varf(deg, grid, longer(nodes, i), weights, **kw)],
        'four_len': lambda: [
            lambda: core.transform(deg, grid, nodes, weights, True,
                                   do_fourier=[0]*(dim - 1), **kw),
            lambda: core.varf(deg, grid, nodes, weights,
                              do_fourier=[0]*(dim - 1), **kw)],
        'four_odd': lambda: [
            lambda: core.transform(odd, grid, nodes, weights, True,
                                   do_fourier=four(i), **kw),
            lambda: core.transform(odd, np.zeros(ref.size(dim, odd, s)),
                                   nodes, weights, False,
                                   do_fourier=four(i), **kw),
            lambda: core.varf(odd, grid, nodes, weights, do_fourier=four(i),
                              **kw)],
        'varfd_size': lambda: [
            lambda: core.varfd(dim, deg, i, sp(np.ones((bad, bad))
                                               if bad else np.ones((1, 1))),
                               **kw)],
        'varfd_nonsquare': lambda: [
            lambda: core.varfd(dim, deg, i, sp(np.ones((size, size + 1))),
                               **kw)],
        'varfd_dir': lambda: [
            lambda: core.varfd(dim, deg, dim + max(0, delta), sp(mat), **kw)],
        'tens_sizes': lambda: [
            lambda: core.tensorize([np.ones(deg + 1), np.ones(deg + 2)],
                                   **kw),
            lambda: core.tensorize([np.ones((deg + 1, deg + 1)),
                                    np.ones((deg + 2, deg + 2))], **kw)],
        'tens_nonsquare': lambda: [
            lambda f=f, k=k, shape=shape: core.tensorize(
                {frozenset({0} if k else {0, 1}):
                 f(np.ones(shape if not k else (deg + 1, deg + 1))),
                 frozenset({1, 2} if k else {2}):
                 f(np.ones(shape if k else (deg + 1, deg + 1)))},
                sparse=c['sparse'], **kw)
            for f in (ss.csr_matrix, np.array) for k in (0, 1)
            for z in [ref.size(2, deg, s)]
            for shape in ((z, z + 1), (z + 1, z), (z, ref.size(2, deg + 2, s)))
        ] + [
            lambda f=f, k=k, shape=shape: core.tensorize(
                [f(np.ones(shape if j == k else (deg + 1, deg + 1)))
                 for j in range(2)], sparse=c['sparse'], **kw)
            for f in (ss.csr_matrix, np.array) for k in (0, 1)
            for shape in ((deg + 1, deg + 2), (deg + 2, deg + 1))],
        'tens_dir': lambda: [
            lambda: core.tensorize(np.ones(deg + 1), dim=2,
                                   direction=2 + max(0, delta), **kw),
            lambda: core.tensorize(np.ones((deg + 1, deg + 1)), dim=2,
                                   direction=2 + max(0, delta), **kw)],
        'tens_notsize': lambda: [
            lambda: core.tensorize({frozenset({0, 1}): np.ones(
                [k for k in range(3, 90) if k not in
                 {ref.size(2, d, s) for d in range(40)}][c['seed'] % 9]),
                frozenset({2}): np.ones(3)}, **kw)],
        'tens_overlap': lambda: [
            lambda: core.tensorize({frozenset({0, 1}): np.ones(
                ref.size(2, 2, s)), frozenset({1}): np.ones(3)}, **kw)],
        'project_dir': lambda: [
            lambda: core.project(co, dim, [dim + max(0, delta)], **kw),
            lambda: core.project(sp(mat), dim, [dim + max(0, delta)], **kw)],
        'project_twice': lambda: [
            lambda: core.project(co, dim, [i, i], **kw),
            lambda: core.project(sp(mat), dim, [i, i], **kw)],
        'project_nonsquare': lambda: [
            lambda: core.project(sp(mat[:, :size - 1]), dim, [i], **kw)],
        'project_size': lambda: [
            lambda: core.project(np.ones(bad or 2), dim, [0], **kw)
            if bad or 2 not in sizes else fail('skip')],
        'inner_size': lambda: [
            lambda: core.inner(np.ones(bad or 2), np.ones(bad or 2), dirs,
                               dirs, **kw)],
        'inner_degree': lambda: [
            lambda: core.inner(co, np.ones(ref.size(dim, deg + 1, s)), dirs,
                               dirs, **kw)],
        'discretize_dil': lambda: [
            lambda: core.discretize('v[0]', nodes, np.zeros(dim),
                                    np.eye(dim + 1)),
            lambda: core.discretize('v[0]', nodes, np.zeros(dim),
                                    np.ones((dim, dim + 1)))],
        'discretize_tr': lambda: [
            lambda: core.discretize('v[0]', nodes, np.zeros(dim + 1),
                                    np.eye(dim))],
        'discretize_text': lambda: [
            lambda: core.discretize('no_such_function_%d(v[0])' % (
                c['seed'] % 3), nodes, np.zeros(dim), np.eye(dim))],
        'negative': lambda: [
            lambda: core.iterator_size(dim, -1, **kw),
            lambda: core.iterator_list_indices(dim, -2, **kw),
            lambda: core.iterator_size(-1, deg, **kw),
            lambda: core.transform(-1, grid, nodes, weights, True, **kw)],
        'degree_size': lambda: [
            lambda: core.iterator_get_degree(dim, bad, **kw)],
        'mult_len': lambda: [
            lambda: core.iterator_index([-1]*dim, index_set='cube')],

        'series_len': lambda: [lambda: series(v=np.zeros(bad))],
        'varf_len': lambda: [
            lambda: varf(m=np.zeros((bad or 1, bad or 1)))
            if bad or 1 not in sizes else fail('skip')],
        'series_add': lambda: [
            lambda: series() + series(shifted()),
            lambda: series() - series(shifted()),
            lambda: series() + series(widened()),
            lambda: series() - series(widened()),
            lambda: series() + series(factor='exp(-x%d)' % dirs[0]),
            lambda: series() + series(**same_size()),
            lambda: series() - series(**same_size())],
        'series_type': lambda: [
            lambda: series() + 'text', lambda: series()*[1, 2],
            lambda: series() + None, lambda: series()*varf()],
        'series_mul': lambda: [
            lambda: series()*series(**same_size()),
            lambda: series()*series(index_set='cube' if s != 'cube'
                                    else 'triangle', v=np.ones(ref.size(
                                        dim, deg, 'cube' if s != 'cube' else
                                        'triangle')))],
        'series_degree': lambda: [
            lambda: series()*series(pos(dirs=other[:dim])
                                    if len(other) >= dim else pos(),
                                    v=np.ones(ref.size(dim, deg + 1, s)))],
        'series_factor': lambda: [
            lambda: series()*series(factor='exp(-x%d)' % dirs[0])],
        'float': lambda: [lambda: float(series())],
        'div': lambda: [lambda: series()/series(), lambda: series()/'2'],
        'varf_add': lambda: [
            lambda: varf() + varf(shifted()),
            lambda: varf() - varf(shifted()),
            lambda: varf() + varf(widened()),
            lambda: varf() - varf(widened()),
            lambda: varf() + varf(factor='exp(-x%d)' % dirs[0]),
            lambda: varf() + varf(**same_size()),
            lambda: varf() - varf(**same_size())],
        'varf_mul': lambda: [
            lambda: varf()*varf(**same_size()),
            lambda: varf()*varf(pos(dirs=other[:1], mean=[0.], cov=[[1.]]),
                                np.eye(deg + 1), **same_size())
            if s != 'rectangle' else fail('skip'),
            lambda: varf()*varf(index_set='cube' if s != 'cube' else
                                'triangle', m=np.eye(ref.size(
                                    dim, deg, 'cube' if s != 'cube' else
                                    'triangle')))],
        'varf_type': lambda: [
            lambda: varf() + 'text', lambda: varf()*None,
            lambda: varf()*series()],
        'varf_call': lambda: [
            lambda: varf()(series(shifted())),
            lambda: varf()(series(widened())),
            lambda: varf()(series(**same_size()))],
        'subdegree': lambda: [
            lambda: varf().subdegree(deg + 1 + abs(delta))],
        'cross_nc': lambda: [
            lambda: series(index_set='cross_nc', v=np.ones(ref.size(
                dim, deg, 'cross_nc'))).subdegree(deg - 1),
            lambda: varf(index_set='cross_nc', m=np.eye(ref.size(
                dim, deg, 'cross_nc'))).subdegree(deg - 1)],
        'to_cross': lambda: [
            lambda: series().to_cross(deg - dim + 1 + abs(delta)),
            lambda: varf().to_cross(deg - dim + 1 + abs(delta)),
            lambda: series(index_set='cube', v=np.ones(
                (deg + 1)**dim)).to_cross(1)],
        'position_sizes': lambda: [
            lambda: hm.Position(mean=[0.]*dim, cov=np.eye(dim + 1)),
            lambda: hm.Position(dim=dim, dirs=list(range(dim + 1))),
            lambda: hm.Position(dim=dim, mean=[0.]*(dim + 1)),
            lambda: hm.Position(dim=dim, types=['hermite']*(dim + 1))],
        'position_none': lambda: [lambda: hm.Position()],
        'position_full': lambda: [] if dim == 1 else [
            lambda: full().project([dirs[0]]),
            lambda: full()*hm.Position(dim=1, dirs=[spare])],
        'position_thrice': lambda: [
            lambda: hm.Position.tensorize([pos(), pos(), pos()])],
        'position_mean': lambda: [lambda: pos()*shifted(),
                                  lambda: widened()*pos()],
        'project_unsorted': lambda: [] if dim == 1 else [
            lambda: pos().project(dirs[::-1])],
        'project_missing': lambda: [
            lambda: pos().project([spare]), lambda: series().project([spare]),
            lambda: varf().project([spare]), lambda: quad().project([spare])],
        'quad_full_eval': lambda: [] if dim == 1 else [
            lambda: quad(cov=full().cov).eval(series())],
        'op_dirs': lambda: [
            lambda: quad().discretize_op(hm.Operator(
                hm.Operator.f(hm.Function.x_sub[spare])), deg)
            if spare < 5 else fail('skip')],
        'fun_dirs': lambda: [
            lambda: hm.Function('x%d' % other[0], dirs=dirs),
            lambda: hm.Function('1', dirs=dirs) + hm.Function(
                '1', dirs=other[:1]),
            lambda: quad().discretize('x%d' % other[0]),
            lambda: quad().transform('x%d' % other[0], deg, **kw),
            lambda: quad().integrate('x%d' % other[0])],
        'fun_coupled': lambda: [] if dim == 1 else [
            lambda: hm.Function('exp(x%d*x%d)' % tuple(dirs[:2]),
                                dirs=dirs).project([dirs[0]])],
        'fun_name': lambda: [
            lambda: quad().discretize('unknown_name'),
            lambda: quad().integrate('x%d*b' % dirs[0])],
        'bounds': lambda: [
            lambda: hm.Quad.fourier(3, bounds=[(0, 1)]*dim,
                                    dirs=list(range(dim + 1))),
            lambda: hm.Quad.fourier(3, bounds=[(0, 1)]*(dim + 1), dirs=dirs),
            lambda: hm.Quad.fourier([3]*dim, bounds=[(0, 1)]*(dim + 1)),
            lambda: hm.Quad.fourier([3]*(dim + 1), bounds=[(0, 1)]*dim),
            lambda: hm.Quad.fourier([3]*(dim + 1), dirs=dirs),
            lambda: hm.Quad.fourier([3]*(dim + 1), position=pos(
                types=['fourier']*dim))],
        'comp_pos': lambda: [
            lambda: CompQuad([quad(), quad(mean=shifted().mean)], [1, 1]),
            lambda: CompQuad([quad(), quad(cov=widened().cov)], [1, 1]),
        ] + [
            lambda k=k, a=a: CompQuad(
                [quad(**(a if j == k else {})) for j in range(3)],
                [1, 1, 1]) for k in range(3)
            for a in ({'mean': shifted().mean}, {'cov': widened().cov})
        ] + [
            lambda: CompQuad([quad(), quad(dirs=other[:dim])], [1, 1])
            if len(other) >= dim else fail('skip'),
            lambda: CompQuad([quad(), quad(cov=np.eye(dim)*2)], [1, 1])],
        'comp_len': lambda: [
            lambda: CompQuad([quad()], [1, 1]),
            lambda: CompQuad([quad(), quad()], [1]),
            lambda: CompQuad([], [])],
        'comp_eq': lambda: [lambda: CompQuad([quad()], [1]) == 3,
                            lambda: quad() == 3],
        'types_shared': lambda: [
            lambda: pos()*pos(types=['fourier']*dim),
            lambda: pos()*widened(),
            lambda: pos()*pos(types=['hermite']*i + ['fourier'] +
                              ['hermite']*(dim - 1 - i)),
            lambda: series()*series(widened()),
            lambda: series()*series(shifted()),
            lambda: varf()*varf(shifted()),
            lambda: varf()*varf(widened()),
            lambda: quad()*quad(mean=shifted().mean),
            lambda: quad()*quad(cov=widened().cov)],
        'cross0': lambda: [
            lambda x=x, f=f: f(x) for x in ('cross', 'cross_nc') for f in (
                lambda x: core.iterator_size(dim, 0, index_set=x),
                lambda x: core.iterator_list_indices(dim, 0, index_set=x),
                lambda x: core.transform(0, grid, nodes, weights, True,
                                         index_set=x),
                lambda x: core.varf(0, grid, nodes, weights, index_set=x),
                lambda x: quad().transform('1', 0, index_set=x))],
        'eval_dim': lambda: [
            lambda: quad().eval(hm.Series(
                np.ones(ref.size(dim + 1, deg, s)), hm.Position(dim=dim + 1),
                index_set=s)),
            lambda: hm.Quad.gauss_hermite(3, dim=dim + 1).eval(series())],
        'position_other': lambda: [
            lambda: pos()*3, lambda: pos()*'x',
            lambda: hm.Position(mean=np.zeros(dim), dirs=list(range(dim + 1))
                                ),
            lambda: hm.Position(cov=np.eye(dim), dirs=list(range(dim + 1))),
            lambda: hm.Position(cov=np.eye(dim + 1), dim=dim),
            lambda: hm.Position(dirs=dirs, types=['hermite']*(dim + 1)),
            lambda: hm.Position(mean=np.zeros(dim), dim=dim + 1)],
        'quad_sizes': lambda: [
            lambda: hm.Quad.gauss_hermite([3]*(dim + 1), dirs=dirs),
            lambda: hm.Quad.gauss_hermite([3]*(dim + 1),
                                          mean=np.zeros(dim)),
            lambda: quad(mean=np.zeros(dim + 1)),
            lambda: quad(cov=np.eye(dim + 1)),
            lambda: quad(types=['hermite']*(dim + 1)),
            lambda: hm.Quad(nodes, weights, mean=np.zeros(dim + 1)),
            lambda: hm.Quad.newton_cotes([3]*dim, [1.]*(dim + 1))],
        'solve_other': lambda: [
            lambda: varf(m=np.eye(size)).solve(series(shifted())),
            lambda: varf(m=np.eye(size)).solve(series(widened())),
            lambda: varf(m=np.eye(size)).solve(series(**same_size())),
            lambda: varf(m=np.eye(size)).solve(np.ones(size)),
            lambda: varf(m=np.eye(size)).solve(series(
                v=np.ones(ref.size(dim, deg + 1, s))))],
        'call_other': lambda: [
            lambda: varf()(series(v=np.ones(ref.size(dim, deg + 1, s)))),
            lambda: varf()(np.ones(size)), lambda: varf()(3)],
        'op_args': lambda: [
            lambda: hm.Operator(sym.Symbol('x', real=True)),
            lambda: hm.Operator(sym.Function('f')(hm.Function.xyz[0]) +
                                sym.Function('g')(hm.Function.xyz[0])),
            lambda: oper(dirs) + oper(other[:1]),
            lambda: oper(dirs) - oper(other[:1]),
            lambda: oper(dirs) + 3, lambda: oper(dirs) - 'x',
            lambda: oper(dirs)*oper(dirs),
            lambda: oper(dirs).map(hm.Function('1', dirs=other[:1])),
            lambda: hm.Operator(sym.Function('f')(
                *[hm.Function.xyz[d] for d in dirs])**2).split(),
            lambda: quad().discretize_op(oper(other[:1]), deg,
                                         index_set=s)],
        'fun_ops': lambda: [
            lambda: hm.Function('1', dirs=dirs) * hm.Function(
                '1', dirs=other[:1]),
            lambda: hm.Function('1', dirs=dirs) / hm.Function(
                '1', dirs=other[:1]),
            lambda: hm.Function.tensorize([hm.Function('1', dirs=dirs), 3]),
            lambda: hm.Function.tensorize([hm.Function('1', dirs=dirs),
                                           hm.Function('1', dirs=dirs)])],
        'plot_args': lambda: [
            lambda: quad().plot(3.5, ax=axes()),
            lambda: quad(cov=full().cov).plot(series(full()), ax=axes())
            if dim == 2 else fail('skip'),
            lambda: quad().streamlines('1', '1', ax=axes())
            if dim != 2 else fail('skip')],
        'to_function_full': lambda: [] if dim == 1 else [
            lambda: series(full()).to_function()],
        'weights_full': lambda: [] if dim == 1 else [
            lambda: full().weights()],
        'plot_hf': lambda: [lambda: quad().plot_hf([1]*(dim + 1), ax=0)],
        'quad_sets': lambda: [
            lambda x=x, f=f: f({'index_set': x}) for x in names for f in (
                lambda k: quad().transform('x%d' % dirs[0], deg, **k),
                lambda k: quad().varf('x%d' % dirs[0], deg, **k),
                lambda k: quad().varfd('x%d' % dirs[0], deg, [dirs[i]], **k),
                lambda k: quad().discretize_op(oper(dirs), deg, **k),
                lambda k: quad().series(co, **k).multi_indices(),
                lambda k: series(**k), lambda k: varf(**k))],
        'quad_odd': lambda: [
            lambda f=f: f(hm.Quad.fourier(4, dirs=dirs)) for f in (
                lambda q: q.transform('1', odd, **kw),
                lambda q: q.varf('1', odd, **kw),
                lambda q: q.varfd('1', odd, [dirs[i]], **kw),
                lambda q: q.discretize_op(oper(dirs), odd, **kw),
                lambda q: q.eval(q.series(np.zeros(ref.size(dim, odd, s)),
                                          **kw)))],
        'tensor_series': lambda: [
            lambda: hm.Series.tensorize([series(), co]),
            lambda: hm.Varf.tensorize([varf(), mat]),
            lambda: hm.Quad.tensorize([quad(), 3]),
            lambda: hm.Quad.tensorize([]),
            lambda: hm.Position.tensorize([pos(), 3])],
    }
    for k, call in enumerate(T[kind]()):
        before = dict(hm.settings)
        try:
            raises(call)
            if dict(hm.settings) != before:
                fail('the settings are %s after the refusal, %s before',
                     dict(hm.settings), before)
        except Exception as e:
            if str(e) == 'skip':
                continue
            raise type(e)('%s, variant %d: %s' % (kind, k, e))
    # the library still works
    want = weights[0].sum()
    for w in weights[1:]:
        want = want*w.sum()
    close('integral after the error', core.integrate(
        np.ones(n**dim), nodes, weights), want, 1e-12*(1 + want))
    r = series() + series()
    close('sum after the error', r.coeffs, 2*co, 1e-12)
    return True, [kind]
