"""No call reads or writes outside its arrays, whatever its arguments."""
RULE = ('calls of every function of hermipy.core with arguments of random '
        'sizes (valid ones, near-valid ones and arbitrary ones: empty '
        'arrays, wrong lengths, directions and degrees out of range), in a '
        'build with the address and undefined-behaviour sanitizers and '
        'checked containers; exceptions are allowed, reports are not; '
        'non-trivial when a C++ function got as far as a result or the '
        'arguments were inconsistent')
ASSUMPTIONS = ['calls go through hermipy.core, whose conversions make the '
               'C++ arguments']
FLAVOUR = 'asan'
QUICK_S = 25
ROUND = {}
FUNS = ['transform', 'back', 'integrate', 'varf', 'varf_sp', 'varfd',
        'varfd_sp', 'tens_list', 'tens_dict', 'tens_id', 'project',
        'project_mat', 'project_sp', 'inner', 'size', 'list', 'degree',
        'index', 'triple', 'triple_f', 'discretize', 'convert', 'sparse']


def s_case(funs=FUNS):
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 4))
        s = draw(st.sampled_from(gen.SETS))
        off = st.sampled_from([0, 0, 0, 0, 0, -1, 1, 2, -2, 5, -100])
        fun = draw(st.sampled_from(funs))
        if fun == 'discretize':
            dim = draw(st.integers(1, 7))
        deg = draw(gen.degree_for(min(dim, 4), s, 60, 9, low=0))
        if dim == 1 and fun in ('transform', 'back', 'tens_list', 'project',
                                'integrate', 'inner', 'varf', 'varf_sp',
                                'varfd', 'varfd_sp') and \
                draw(st.integers(0, 3)) == 0:
            # up to the largest degree that there are arrays for
            deg = draw(st.integers(60, 120 if fun[:4] == 'varf' else 250))
        return {'fun': fun, 'dim': dim, 'set': s, 'degree': deg,
                'n': draw(st.lists(st.integers(1, 4), min_size=dim,
                                   max_size=dim)),
                'off': draw(st.lists(off, min_size=4, max_size=4)),
                'dirs': draw(st.lists(st.integers(0, 4), min_size=0,
                                      max_size=4)),
                'dirs2': draw(st.lists(st.integers(0, 4), min_size=0,
                                       max_size=3)),
                'four': draw(st.lists(st.integers(0, 1), min_size=dim,
                                      max_size=dim)),
                'tidy': draw(st.booleans()),
                'seed': draw(st.integers(0, 999))}
    return case()


def s_invalid():
    from vlib.props import c17
    return c17.s_case([k for k in c17.CORE if k != 'discretize_text'])


def s_high():
    """Whole computations."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(n=(1, 5), max_pts=400, factor=True))
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(len(q['dirs']), s, 40, 8, low=2))
        return {'q': q, 'set': s, 'degree': deg - deg % 2 or 2,
                'sparse': draw(st.booleans()),
                'tens': draw(st.booleans()),
                'f': draw(gen.expr_of(q['dirs'], atoms=gen.POLY))}
    return case()


SUBS = {'calls': (s_case, 4), 'invalid': (s_invalid, 2), 'high': (s_high, 2)}


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import mk, ref
    from vlib.api import hm, core
    if sub == 'invalid':
        from vlib.props import c17
        return c17.check('core', c)
    if sub == 'high':
        q, kw = mk.quad(c['q']), {'index_set': c['set']}
        deg, f = c['degree'], c['f']
        dirs = c['q']['dirs']
        done = 0
        for call in (
                lambda: q.eval(q.transform(f, deg, tensorize=c['tens'],
                                           **kw)),
                lambda: q.integrate(f, tensorize=c['tens']),
                lambda: q.varf(f, deg, sparse=c['sparse'],
                               tensorize=c['tens'], **kw),
                lambda: q.varfd(f, deg, [dirs[-1]]*2, sparse=c['sparse'],
                                tensorize=c['tens'], **kw),
                lambda: q.varf(f, deg, **kw).project([dirs[0]]),
                lambda: q.transform(f, deg, **kw).project([dirs[-1]]),
                lambda: q.varf(f, deg, **kw).to_cross(max(1, deg//2)),
                lambda: q.transform(f, deg, **kw).to_cross(max(1, deg//2)),
                lambda: q.varf(f, deg, **kw).subdegree(deg - 1),
                lambda: q.transform(f, deg, **kw).subdegree(deg + 3)):
            try:
                call()
                done += 1
            except Exception:
                pass
        return done > 4, ['high']
    dim, s, deg, off, fun = c['dim'], c['set'], c['degree'], c['off'], c['fun']
    rng = np.random.RandomState(c['seed'])
    kw = {'index_set': s}
    size = ref.size(dim, deg, s)
    npts = int(np.prod(c['n']))
    if c['tidy']:
        deg -= deg % 2*max(c['four'])
        size = ref.size(dim, deg, s)
        off = [0]*4

    def vec(k):
        return rng.uniform(-1, 1, max(0, min(k, 4000)))

    def mat(a, b):
        m = rng.uniform(-1, 1, (max(0, a), max(0, b)))
        return m*(rng.uniform(0, 1, m.shape) < .6)
    nodes = [vec(k) for k in c['n']]
    weights = [vec(k) for k in c['n']]
    if off[1]:
        weights[0] = vec(c['n'][0] + off[1])
    if off[2] == 5:
        weights = weights[:-1]
    if off[2] == 2:
        nodes = nodes + [vec(2)]
    dirs = c['dirs']
    if c['tidy']:
        dirs = sorted(set(d for d in dirs if d < dim)) or [0]
    d1, d2 = list(range(dim)), c['dirs2']
    if c['tidy']:
        d2 = sorted(set(d2)) or [0]
    four = c['four'] + [0]*max(0, off[3])
    if off[3] < 0:
        four = four[:off[3]]
    m = mat(size + off[0], size + off[0] + off[1])
    blocks, used = {}, []
    for d in range(dim):
        used.append(d)
        if d == dim - 1 or c['seed'] >> d & 1:
            key = used if off[2] != 1 else used + [d + 1]
            k = ref.size(len(used), deg, s) + (off[0] if d == dim - 1 else 0)
            blocks[frozenset(key)] = vec(k) if c['seed'] % 3 else mat(
                k, k + off[1])
            used = []
    D = deg + (off[3] if off[3] > -50 else -1)
    F = {
        'transform': lambda: core.transform(
            deg, vec(npts + off[0]), nodes, weights, True, do_fourier=four,
            **kw),
        'back': lambda: core.transform(
            deg, vec(size + off[0]), nodes, weights, False, do_fourier=four,
            **kw),
        'integrate': lambda: core.integrate(
            vec(npts + off[0]), nodes, weights, do_fourier=four),
        'varf': lambda: core.varf(deg, vec(npts + off[0]), nodes, weights,
                                  do_fourier=four, **kw),
        'varf_sp': lambda: core.varf(deg, vec(npts + off[0]), nodes, weights,
                                     sparse=True, do_fourier=four, **kw),
        'varfd': lambda: core.varfd(dim, D, (dirs or [0])[0], m,
                                    do_fourier=c['four'][0], **kw),
        'varfd_sp': lambda: core.varfd(dim, D, (dirs or [0])[0],
                                       ss.csr_matrix(m),
                                       do_fourier=c['four'][0], **kw),
        'tens_list': lambda: core.tensorize(
            [vec(deg + 1 + (off[i % 4] if i else 0)) for i in range(dim)]
            if c['seed'] % 3 else
            [mat(deg + 1 + min(1, off[i % 4]), deg + 1 + min(1, off[0]))
             for i in range(dim)], sparse=False, **kw),
        'tens_dict': lambda: core.tensorize(
            blocks, sparse=c['seed'] % 3 == 0 and off[3] > 0, **kw),
        'tens_id': lambda: core.tensorize(
            vec(deg + 1 + min(off[0], 1)) if c['seed'] % 3 else
            mat(deg + 1 + min(off[0], 1), deg + 1 + min(off[1], 1)),
            dim=dim + (off[2] if -2 < off[2] < (2 if dim == 1 else 1)
                       else 0),
            direction=(dirs or [7])[0], **kw),
        'project': lambda: core.project(vec(size + off[0]), dim, dirs, **kw),
        'project_mat': lambda: core.project(m, dim, dirs, **kw),
        'project_sp': lambda: core.project(ss.csr_matrix(m), dim, dirs, **kw),
        'inner': lambda: core.inner(
            vec(size + off[0]), vec(ref.size(len(d2) or 1, deg, s) + off[1]),
            d1, d2, **kw),
        'size': lambda: core.iterator_size(dim + off[0], deg + off[1], **kw),
        'list': lambda: core.iterator_list_indices(
            dim + min(0, off[0]), D, **kw),
        'degree': lambda: core.iterator_get_degree(
            dim + off[1], size + off[0], **kw),
        'index': lambda: core.iterator_index(
            [k + off[0]*(i == 0) for i, k in enumerate(dirs or [0])],
            index_set=s if s in ('triangle', 'cube') else 'cube'),
        'triple': lambda: core.triple_products(D),
        'triple_f': lambda: core.triple_products_fourier(D),
        'discretize': lambda: core.discretize(
            'v[0]' if dim == 1 else 'v[0]*v[%d]' % (dim - 1), nodes,
            vec(dim + off[0]), mat(dim + off[1], dim + off[3])),
        'convert': lambda: core.to_numpy(core.to_cpp(
            m if c['seed'] % 2 else vec(size + off[0]))),
        'sparse': lambda: core.to_numpy(core.to_cpp(ss.csr_matrix(m))),
    }
    try:
        F[fun]()
        ok = True
    except Exception:
        ok = False
    return ok or any(off), [fun, 'result' if ok else 'refused']
