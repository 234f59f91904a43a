"""Linear systems and eigenvalue problems are solved."""
RULE = ('random well-conditioned and singular matrices on random positions '
        'and index sets, dense and sparse, direct, gmres, preconditioned, '
        'with a removed kernel or vector, cache on and off; residuals of the '
        'returned series against the definition, eigenvalues against those '
        'of numpy; non-trivial when the matrix has order 3 or more')
ASSUMPTIONS = ['matrices of condition number below about 1e4, separated '
               'eigenvalues']
ROUND = {}
QUICK_S = 22


def s_space():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def space(draw):
        dim = draw(st.integers(1, 3))
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 36, 14, low=1))
        four = draw(st.integers(0, 3)) == 0
        return {'dim': dim, 'set': s, 'degree': deg,
                'dirs': draw(gen.dirs_of(dim)),
                'mean': draw(gen.vec(dim)), 'var': draw(gen.vec(dim,
                                                                gen.pos())),
                'types': ['fourier' if four else 'hermite']*dim,
                'seed': draw(st.integers(0, 10**6)),
                'sparse': draw(st.booleans()), 'cache': draw(st.booleans()),
                'sym': draw(st.booleans()),
                'bs': draw(st.sampled_from([1., 1., 1e-9, 1e6])),
                'ms': draw(st.sampled_from([1., 1., 1e-7, 1e5])),
                'factor': draw(gen.factor_of(list(range(dim))))}
    return space()


def s_solve():
    from hypothesis import strategies as st
    return st.tuples(s_space(), st.fixed_dictionaries({
        'how': st.sampled_from(['direct', 'direct', 'gmres', 'ilu',
                                'remove0', 'vec', 'vec_gmres']),
        'quiet': st.booleans()})).map(lambda t: dict(t[0], **t[1]))


def s_eigs():
    from hypothesis import strategies as st
    return st.tuples(s_space(), st.fixed_dictionaries({
        'k': st.integers(1, 4),
        # a pair of complex eigenvalues, and the size of the imaginary part
        # of its eigenvectors
        'pair': st.sampled_from([0., 0., 1., .1, 1e-2, 1e-3, 3e-4]),
        'which': st.sampled_from(['LM', 'LR', 'SR', 'SM'])})).map(
            lambda t: dict(t[0], **t[1]))


def s_apply():
    return s_space()


def s_related():
    """Systems of related matrices, one after the other."""
    from hypothesis import strategies as st
    return st.tuples(s_space(), st.fixed_dictionaries({
        'ops': st.lists(st.sampled_from([
            'again', 'transpose', 'minus', 'permuted', 'in place', 'reversed',
            'signs', 'twice', 'rhs', 'rhs in place']), min_size=2,
            max_size=6)})).map(lambda t: dict(t[0], **t[1]))


SUBS = {'solve': (s_solve, 4), 'eigs': (s_eigs, 2), 'apply': (s_apply, 1),
        'related': (s_related, 2)}


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref
    from vlib.api import hm, close, fail, fresh_dir, raises
    dim, s = c['dim'], c['set']
    hm.settings.update(cache=c['cache'], cachedir=fresh_dir('cache16'))
    n = ref.size(dim, c['degree'], s)
    rng = np.random.RandomState(c['seed'])
    posn = hm.Position(mean=c['mean'], cov=np.diag(c['var']),
                       dirs=c['dirs'], types=c['types'])
    fac = c['factor']
    for i in reversed(range(dim)):
        fac = fac.replace('x%d' % i, 'X%d' % c['dirs'][i])
    fac = fac.replace('X', 'x')
    # eigenvalues about 1, 2, ..., n
    d = np.diag(1. + rng.permutation(n))
    p = rng.uniform(-1, 1, (n, n))*.3/np.sqrt(n)
    if c['sparse']:
        p = p*(rng.uniform(size=(n, n)) < .4)
    mat = d + (p + p.T)/2 if c['sym'] else d + p
    if c.get('pair') and n > 3:
        i, j = rng.permutation(n)[:2]
        mat[[i, j]] = 0.
        mat[:, [i, j]] = 0.
        mat[i, i] = mat[j, j] = rng.choice([1.3*n, .3])
        mat[i, j], mat[j, i] = 1., -c['pair']**2
    if c['seed'] % 3 == 0:
        mat = -mat
    mk = ss.csr_matrix if c['sparse'] else np.array

    def series(v):
        return hm.Series(v, posn, factor=fac, index_set=s)

    def varf(m):
        return hm.Varf(mk(m), posn, factor=fac, index_set=s)

    def space(what, obj):
        if obj.position != posn or obj.index_set != s or \
                obj.factor != hm.Function(fac, dirs=c['dirs']):
            fail('%s: position, factor or index set changed', what)

    bs, ms = c['bs'], c['ms']
    if sub == 'solve' and c['how'] not in ('direct', 'gmres', 'ilu'):
        ms = 1.             # the bordered matrix would be ill conditioned
    mat = mat*ms
    b = rng.uniform(-1, 1, n)*bs
    labels = ['sparse' if c['sparse'] else 'dense', s]

    if sub == 'apply':
        var, ser = varf(mat), series(b)
        r = var(ser)
        space('Varf(Series)', r)
        close('matrix times series', r.coeffs, mat.dot(b),
              1e-12*np.abs(mat).dot(np.abs(b)))
        zb = b + 1j*rng.uniform(-1, 1, n)*bs
        close('matrix times complex series', var(series(zb)).coeffs,
              mat.dot(zb), 1e-12*np.abs(mat).dot(np.abs(zb)))
        close('solution of a complex system', var.solve(
            series(zb.copy())).coeffs, np.linalg.solve(mat, zb),
            1e-9*n*bs/ms)
        other = hm.Position(mean=np.array(c['mean']) + 1, cov=np.diag(
            c['var']), dirs=c['dirs'], types=c['types'])
        bad = hm.Series(b, other, index_set=s, factor=fac)
        raises(lambda: var(bad), ValueError)
        raises(lambda: var.solve(bad), ValueError)
        raises(lambda: var + hm.Varf(mk(mat), other, index_set=s,
                                     factor=fac), ValueError)
        if dim == 1 and s != 'cube':
            bad = hm.Series(b, posn, index_set='cube', factor=fac)
            raises(lambda: var(bad), ValueError)
            raises(lambda: var.solve(bad), ValueError)
        return n > 2, labels

    if sub == 'related':
        data = mk(mat)
        var, ser = varf(data), series(b)
        var.solve(ser)
        for op in c['ops']:
            inplace = op == 'in place' and n > 1
            if op == 'transpose':
                mat = mat.T.copy()
            elif op == 'minus':
                mat = -mat
            elif op == 'permuted':
                p = rng.permutation(n)
                mat = mat[np.ix_(p, p)]
            elif op == 'reversed':
                mat = mat[::-1]
            elif op == 'signs':
                mat = mat*rng.choice([-1, 1], n)
            elif op == 'twice':
                mat = 2*mat
            elif inplace:
                # the same Varf with other entries
                mat = mat.copy()
                mat[0, 0] *= 1.5
                var.matrix[0, 0] = mat[0, 0]
            if not inplace:
                var = varf(mat) if op != 'again' else var
            if op == 'rhs in place':
                b = b[::-1].copy()
                ser.coeffs[:] = b
            elif op == 'rhs':
                b = rng.uniform(-1, 1, n)*bs
                ser = series(b)
            sol = var.solve(ser)
            space('solution', sol)
            close('M x = b (%s)' % op, mat.dot(sol.coeffs), b,
                  1e-10*(bs + np.abs(mat).dot(np.abs(sol.coeffs))))
            close('M b (%s)' % op, var(ser).coeffs, mat.dot(b),
                  1e-12*np.abs(mat).dot(np.abs(b)))
        return n > 2, labels + c['ops'][:3]

    if sub == 'eigs':
        k = min(c['k'], n - 2)
        if k < 1:
            return False, ['too small']
        var = varf(mat)
        ev, evec = var.eigs(k=k, which=c['which'])
        if len(ev) != k or len(evec) != k:
            fail('%d eigenvalues, %d eigenvectors, expected %d', len(ev),
                 len(evec), k)
        for e, v in zip(ev, evec):
            space('eigenvector', v)
            close('norm of the eigenvector', np.linalg.norm(v.coeffs), 1.,
                  1e-8)
            close('M v = e v', mat.dot(v.coeffs), e*v.coeffs, 1e-9*n*ms)
            close('Varf(v) = e v', var(v).coeffs, e*v.coeffs, 1e-9*n*ms)
        full = np.linalg.eigvals(mat)
        key = {'LM': -np.abs(full), 'LR': -full.real, 'SR': full.real,
               'SM': np.abs(full)}[c['which']]
        # of a conjugate pair either can be left out
        rest = list(range(n))
        for e in ev:
            m = min(rest, key=lambda r: abs(full[r] - e))
            close('eigenvalue', e, full[m], 1e-6*n*ms)
            rest.remove(m)
        ev = np.array(ev, complex)
        got = {'LM': -np.abs(ev), 'LR': -ev.real, 'SR': ev.real,
               'SM': np.abs(ev)}[c['which']]
        close('selection of the eigenvalues', np.sort(got),
              np.sort(key)[:k], 1e-6*n*ms)
        return n > 2, labels + [c['which']]

    how = c['how']
    kw = {'quiet': c['quiet']}
    if how == 'remove0':
        if n < 4:
            return False, ['too small']
        # a symmetric matrix with a kernel
        ev, q = np.linalg.eigh((mat + mat.T)/2)
        ev[0] = 0.
        mat = (q*ev).dot(q.T)
        z = q[:, 0]
        var = varf(mat)
        sol = var.solve(series(b), remove0=True, **kw)
        space('solution', sol)
        close('component on the kernel', sol.coeffs.dot(z), 0., 1e-6*n*bs)
        close('M x = b - (b, z) z', mat.dot(sol.coeffs), b - b.dot(z)*z,
              1e-6*n*bs)
        return True, labels + [how]
    if how.startswith('vec'):
        z = rng.uniform(-1, 1, n)
        var = varf(mat)
        if how == 'vec_gmres':
            kw.update(use_gmres=True, tol=1e-12, atol=0., restart=n + 1)
        sol = var.solve(series(b), remove_vec=series(z), **kw)
        space('solution', sol)
        z = z/np.linalg.norm(z)
        x = sol.coeffs
        close('component on the vector', x.dot(z), 0., 1e-6*n*bs)
        res = b - mat.dot(x)
        close('residual is along the vector', res - res.dot(z)*z,
              np.zeros(n), 1e-6*n*bs)
        return n > 2, labels + [how]
    if how in ('gmres', 'ilu'):
        kw.update(use_gmres=True, tol=1e-11, atol=0.)
        if how == 'ilu':
            kw['preconditioner'] = 'ilu'
            if not c['sparse']:
                how = 'gmres'
                del kw['preconditioner']
    var, ser = varf(mat), series(b)
    sol = var.solve(ser, **kw)
    space('solution', sol)
    close('M x = b', mat.dot(sol.coeffs), b,
          (1e-10 if how == 'direct' else 1e-8)*(bs + np.abs(mat).dot(
              np.abs(sol.coeffs))))
    again = varf(mat).solve(series(b), **kw)
    close('the same system again', again.coeffs, sol.coeffs,
          1e-8*bs/ms)
    b2 = rng.uniform(-1, 1, n)*bs
    sol = var.solve(series(b2), **kw)
    close('another right-hand side', mat.dot(sol.coeffs), b2,
          (1e-10 if how == 'direct' else 1e-8)*(bs + np.abs(mat).dot(
              np.abs(sol.coeffs))))
    return n > 2, labels + [how]
