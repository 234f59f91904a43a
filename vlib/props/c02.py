"""Truncation, extension and change of index set keep the coefficients."""
RULE = ('random series and matrices on every nested index set (and triangle '
        'to cross), random target degrees; non-trivial when dimension >= 2 '
        'and the degree changes')
ROUND = {}
QUICK_S = 24


def s_case():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        s = draw(st.sampled_from(gen.SETS))
        dim = draw(st.integers(1, 5))
        d1 = draw(gen.degree_for(dim, s, 130, 40))
        d2 = draw(gen.degree_for(dim, s, 130, 40))
        if draw(st.integers(0, 2)) == 0:
            d2 = max(d1 + draw(st.integers(-2, 2)),
                     1 if s.startswith('cross') else 0)
        return {'set': s, 'dim': dim, 'd1': d1, 'd2': d2,
                'dirs': draw(gen.dirs_of(dim)),
                'mean': draw(gen.vec(dim)), 'cov': draw(gen.cov_of(dim)),
                'seed': draw(st.integers(0, 10**6)),
                'sparse': draw(st.booleans()),
                'factor': draw(st.sampled_from(['1', 'exp(-{x}**2/4)']))}
    return case()


def s_cross():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 5))
        matrix = draw(st.booleans())
        d1 = draw(gen.degree_for(dim, 'triangle', 90 if matrix else 500, 40))
        top = d1 - dim + 1
        d2 = draw(st.integers(1, d1 + 2)) if top < 1 or \
            draw(st.integers(0, 3)) == 0 else top - draw(
                st.integers(0, min(top - 1, 6)))
        return {'set': 'triangle', 'dim': dim, 'd1': d1, 'd2': d2,
                'dirs': draw(gen.dirs_of(dim)),
                'mean': draw(gen.vec(dim)), 'cov': draw(gen.cov_of(dim)),
                'seed': draw(st.integers(0, 10**6)),
                'matrix': matrix, 'sparse': draw(st.booleans()),
                'factor': draw(st.sampled_from(['1', 'exp(-{x}**2/4)']))}
    return case()


SUBS = {'series': (s_case, 2), 'varf': (s_case, 2), 'cross': (s_cross, 2)}


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import hm, core, fail, raises
    s, dim, d1, d2 = c['set'], c['dim'], c['d1'], c['d2']
    fac = c['factor'].replace('{x}', 'x%d' % c['dirs'][0])
    pos = hm.Position(mean=c['mean'], cov=c['cov'], dirs=c['dirs'])
    mi = [tuple(m) for m in
          core.iterator_list_indices(dim, d1, index_set=s).tolist()]
    rng = np.random.RandomState(c['seed'])
    labels = [s, 'down' if d2 < d1 else 'up' if d2 > d1 else 'same']
    nt = dim > 1 and d1 != d2

    def keep(obj, like, deg, iset):
        if obj.position != like.position or obj.factor != like.factor:
            fail('position or factor changed')
        if obj.index_set != iset:
            fail('the index set is %s', obj.index_set)
        got = [tuple(m) for m in obj.multi_indices().tolist()]
        if set(got) != ref.indices(dim, deg, iset) or \
                len(got) != len(set(got)):
            fail('the multi-indices are not those of degree %d', deg)
        return got

    if sub == 'series' or sub == 'cross' and not c['matrix']:
        co = np.round(rng.uniform(-5, 5, len(mi)), 3)
        if c['seed'] % 4 == 0:            # eigenvectors can be complex
            co = co + 1j*np.round(rng.uniform(-5, 5, len(mi)), 3)
        elif c['seed'] % 4 == 1:
            co = co*10.**rng.uniform(-200, 200, len(mi))
        ser = hm.Series(co.copy(), pos, factor=fac, index_set=s)
        was = dict(zip(mi, co))
        if sub == 'series' and s == 'cross_nc':
            raises(lambda: ser.subdegree(d2), ValueError)
            return True, labels
        if sub == 'cross':
            if d2 + dim - 1 > d1:
                raises(lambda: ser.to_cross(d2), ValueError)
                return True, ['refused']
            new, iset = ser.to_cross(d2), 'cross'
        else:
            new, iset = ser.subdegree(d2), s
        got = keep(new, ser, d2, iset)
        for m, v in zip(got, new.coeffs):
            if v != was.get(m, 0.):
                fail('the coefficient of %s was %r and is %r', m,
                     was.get(m, 0.), v)
        if not np.array_equal(ser.coeffs, co):
            fail('the series itself changed')
        if sub == 'series' and d2 >= d1:
            back = new.subdegree(d1)
            if not np.array_equal(back.coeffs, co):
                fail('extension and truncation do not give the series back')
        return nt, labels
    if len(mi) > 60 and sub != 'cross':
        while ref.size(dim, d1, s) > 60:
            d1 -= 1
        d2 = min(d2, d1)
        if d1 < (1 if s.startswith('cross') else 0):
            return False, ['big']
        mi = [tuple(m) for m in
              core.iterator_list_indices(dim, d1, index_set=s).tolist()]
    mat = np.round(rng.uniform(-5, 5, (len(mi), len(mi))), 3)
    if c['sparse']:
        mat = mat*(rng.uniform(0, 1, mat.shape) < .4)
    if c['seed'] % 4 == 1:
        mat = mat*10.**rng.uniform(-200, 200, mat.shape)
    was = {(a, b): mat[i, j] for i, a in enumerate(mi)
           for j, b in enumerate(mi)}
    var = hm.Varf(ss.csr_matrix(mat) if c['sparse'] else mat.copy(), pos,
                  factor=fac, index_set=s)
    if sub == 'cross':
        if d2 + dim - 1 > d1:
            raises(lambda: var.to_cross(d2), ValueError)
            return True, ['refused']
        new, iset = var.to_cross(d2), 'cross'
    else:
        if d2 > d1 and not ref.size(dim, d1, s) == ref.size(dim, d2, s) \
                or s == 'cross_nc':
            raises(lambda: var.subdegree(d2), ValueError)
            return True, ['refused']
        if d2 > d1:
            return False, ['same set']
        new, iset = var.subdegree(d2), s
    got = keep(new, var, d2, iset)
    if c['sparse'] is not isinstance(new.matrix, ss.csr_matrix):
        fail('the matrix changed from sparse to dense or back')
    m2 = new.matrix.toarray() if c['sparse'] else new.matrix
    for i, a in enumerate(got):
        for j, b in enumerate(got):
            if m2[i, j] != was[a, b]:
                fail('the entry of %s, %s was %r and is %r', a, b,
                     float(was[a, b]), float(m2[i, j]))
    return nt, labels + ['sparse' if c['sparse'] else 'dense']
