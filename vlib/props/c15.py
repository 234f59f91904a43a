"""Conversions between numpy, scipy and C++ are lossless or refused."""
RULE = ('random matrices, vectors, cubes and sparse matrices of every type, '
        'memory layout (transposed, strided, reversed, sliced, byte-swapped, '
        'read-only) and sparse form (unsorted, duplicate or explicit zero '
        'entries, empty rows), converted and converted back; equal to the '
        'input bit for bit, or an exception; non-trivial when there are two '
        'entries or more')
ASSUMPTIONS = ['arrays have at least one row and one column']
ROUND = {}
QUICK_S = 18

SPECIAL = [0., -0., 1., -1., 1e308, -1e308, 5e-324, 1e-300,
           float('inf'), 1/3., 2.**53 + 1]


def s_dense():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'rows': st.integers(1, 6), 'cols': st.integers(1, 6),
        'seed': st.integers(0, 10**6),
        'dtype': st.sampled_from(['float64']*5 + [
            'float32', 'int64', 'int32', '>f8', 'complex128', 'bool']),
        'layout': st.sampled_from(['C', 'F', 'T', 'rows', 'cols', 'rev0',
                                   'rev1', 'slice', 'readonly', 'bcast',
                                   'matrix']),
        'special': st.booleans()})


def s_sparse():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'rows': st.integers(1, 7), 'cols': st.integers(1, 7),
        'seed': st.integers(0, 10**6), 'density': st.sampled_from(
            [0., .1, .3, .6, 1.]),
        'form': st.sampled_from(['plain', 'unsorted', 'dups', 'zeros',
                                 'int64', 'ints', 'float32', 'sliced']),
        'special': st.booleans()})


SUBS = {'dense': (s_dense, 2), 'sparse': (s_sparse, 2), 'arrays': (s_dense,
                                                                   1)}


def values(rng, n, special):
    import numpy as np
    v = rng.uniform(-2, 2, n)
    if special:
        k = rng.randint(0, len(SPECIAL), n)
        v = np.where(rng.uniform(size=n) < .5, np.array(SPECIAL)[k], v)
    return v


def layout(a, how):
    import numpy as np
    r, c = a.shape
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'T':
        return a.T.copy().T
    if how == 'rows':
        b = np.zeros((2*r, c), a.dtype)
        b[::2] = a
        return b[::2]
    if how == 'cols':
        b = np.zeros((r, 2*c), a.dtype)
        b[:, ::2] = a
        return b[:, ::2]
    if how == 'rev0':
        return a[::-1].copy()[::-1]
    if how == 'rev1':
        return a[:, ::-1].copy()[:, ::-1]
    if how == 'slice':
        b = np.zeros((r + 2, c + 3), a.dtype)
        b[1:r + 1, 2:c + 2] = a
        return b[1:r + 1, 2:c + 2]
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == 'bcast':
        return np.broadcast_to(a[:1], a.shape)
    return a.copy()


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib.api import core, cpp, fail
    rng = np.random.RandomState(c['seed'])
    r, k = c['rows'], c['cols']

    def equal(what, got, want):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            fail('%s: shape %s instead of %s', what, got.shape, want.shape)
        if got.dtype != np.float64 or \
                not np.array_equal(got, want if want.dtype.kind == 'c'
                                   else want.astype(float)):
            fail('%s: %s instead of %s', what, got.tolist(), want.tolist())

    if sub == 'sparse':
        dense = values(rng, r*k, c['special']).reshape(r, k)
        dense = dense*1.
        dense[rng.uniform(size=(r, k)) >= c['density']] = 0
        form = c['form']
        if form == 'ints':
            dense = np.sign(np.nan_to_num(dense)).astype(int)
        if form == 'float32':
            dense = (np.sign(np.nan_to_num(dense))*.5).astype(np.float32)
        m = ss.csr_matrix(dense)
        if form in ('unsorted', 'dups', 'zeros'):
            rows, cols = np.nonzero(dense)
            data = dense[rows, cols]
            if form == 'dups':
                rows, cols = np.r_[rows, rows], np.r_[cols, cols]
                data = np.r_[data/2, data/2]
            if form == 'zeros':
                extra = np.argwhere(dense == 0)[:3]
                rows = np.r_[rows, extra[:, 0]]
                cols = np.r_[cols, extra[:, 1]]
                data = np.r_[data, np.zeros(len(extra))]
            perm = rng.permutation(len(rows))
            rows, cols, data = rows[perm], cols[perm], data[perm]
            order = np.argsort(rows, kind='stable')
            rows, cols, data = rows[order], cols[order], data[order]
            ptr = np.searchsorted(rows, np.arange(r + 1))
            m = ss.csr_matrix((data, cols, ptr), shape=(r, k))
        elif form == 'int64':
            m.indices = m.indices.astype(np.int64)
            m.indptr = m.indptr.astype(np.int64)
        elif form == 'sliced':
            big = ss.vstack([m, m, m]).tocsr()
            m = big[r:2*r]
        want = m.toarray()
        before = m.copy()
        try:
            x = core.to_cpp(m)
        except Exception:
            if form in ('plain', 'zeros', 'unsorted', 'sliced'):
                raise
            return False, ['refused ' + form]
        if (x.size1(), x.size2()) != (r, k):
            fail('size %s', (x.size1(), x.size2()))
        back = core.to_numpy(x)
        if not isinstance(back, ss.csr_matrix):
            fail('a sparse matrix comes back as a %s', type(back))
        equal('sparse matrix', back.toarray(), want)
        equal('full', np.array([list(v) for v in cpp.full(x)]).reshape(r, k),
              want)
        if (m != before).nnz and not c['special']:
            fail('the conversion changed the matrix')
        y = cpp.to_spmat(cpp.to_mat(np.ascontiguousarray(want, float)))
        equal('dense to sparse', core.to_csr(y).toarray(), want)
        # the original is independent of the copy
        if back.nnz:
            back.data[:] = 7
            equal('original', core.to_numpy(x).toarray(), want)
        return r*k > 1 and m.nnz > 0, [form]

    a = values(rng, r*k, c['special'] and c['dtype'] == 'float64')
    with np.errstate(all='ignore'):
        a = a.reshape(r, k).astype(c['dtype'])
    if c['dtype'] == 'complex128':
        a = a + 1j*rng.randint(0, 2, (r, k))
    a = layout(a, c['layout'])
    if c['layout'] == 'matrix':
        a = np.asmatrix(a)
    want = np.array(a)
    plain = c['dtype'] == 'float64' and c['layout'] in ('C', 'readonly')
    if sub == 'dense':
        for name in ('to_mat', 'to_bmat', 'to_boost_mat'):
            try:
                x = getattr(cpp, name)(a)
            except Exception:
                if plain:
                    raise
                continue
            back = cpp.to_numpy(x)
            equal(name, back, want)
            if name != 'to_bmat':
                equal(name + ' and to_numpy', core.to_numpy(x), want)
            if name == 'to_boost_mat' and (x.size1(), x.size2()) != (r, k):
                fail('size of a boost_mat')
            back[...] = 7
            equal(name + ', original', a, want)
            equal(name + ', copy', cpp.to_numpy(x), want)
        return r*k > 1, [c['dtype'], c['layout']]
    # arrays: vectors, matrices and cubes through the generic converter
    if c['layout'] == 'matrix':
        return False, ['skipped']
    lists = c['seed'] % 2
    # arrays of the same numbers and of various shapes
    mats = [want, want.reshape(k, r), want.reshape(1, r*k), want.T]
    try:
        cube = core.convert_to_cpp_cube([m.tolist() if lists else m
                                         for m in mats])
    except Exception:
        if c['dtype'] == 'float64':
            raise
    else:
        if len(cube) != len(mats):
            fail('a list of %d matrices has %d', len(mats), len(cube))
        for m, x in zip(mats, cube):
            equal('list of matrices', np.array([list(v) for v in x]), m)
    for obj in (a[0], a, np.stack([a, a + a]) if a.dtype != bool
                else np.stack([a, a])):
        arg = obj.tolist() if lists else obj
        try:
            x = core.to_cpp_array(arg)
            back = core.to_numpy(x)
        except Exception:
            if c['dtype'] == 'float64':
                raise
            continue
        equal('array of dimension %d' % obj.ndim, back, np.array(obj))
        if not lists:
            try:
                back = core.to_numpy(core.to_cpp(obj))
            except Exception:
                if c['dtype'] == 'float64':
                    raise
                continue
            equal('to_cpp of dimension %d' % obj.ndim, back, np.array(obj))
    return r*k > 1, [c['dtype'], c['layout'], 'lists' if lists else 'arrays']
