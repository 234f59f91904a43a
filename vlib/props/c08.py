"""Tensor products, projections and inner products."""
RULE = ('random partitions of directions into blocks, random coefficients '
        'and matrices on every index set, against the definitions written '
        'out multi-index by multi-index; non-trivial when two blocks or more '
        'take part, or a direction is really projected or contracted')
ROUND = {}


def s_tensor(dims=(1, 4), top=6):
    from hypothesis import strategies as st
    from vlib import gen, ref

    @st.composite
    def case(draw):
        dim = draw(st.integers(*dims))
        s = draw(st.sampled_from(gen.SETS))
        perm = draw(st.permutations(list(range(dim))))
        blocks, i = [], 0
        while i < dim:
            k = draw(st.integers(1, dim - i))
            blocks.append(sorted(perm[i:i + k]))
            i += k
        low = 1 if s.startswith('cross') else 0
        ok = [d for d in range(low, 13) if ref.size(dim, d, s) <= 60] or [low]
        # directions that do not start at 0, for matrices
        shift = sorted(draw(st.sets(st.integers(0, top), min_size=dim,
                                    max_size=dim)))
        return {'blocks': blocks, 'set': s, 'degree': draw(
            st.sampled_from(ok)), 'shift': shift,
            'what': draw(st.sampled_from(['vec', 'mat', 'mat'])),
            'mag': draw(gen.MODES),
            'sparse_in': draw(st.booleans()),
            'sparse': draw(st.booleans()),
            'style': draw(st.sampled_from(['dict', 'list', 'id'])),
            'seed': draw(st.integers(0, 10**6))}
    return case()


def s_project():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 5))
        s = draw(st.sampled_from(gen.SETS))
        return {'dim': dim, 'set': s,
                'degree': draw(gen.degree_for(dim, s, 60, 14)),
                'keep': draw(st.sets(st.integers(0, dim - 1), min_size=1)
                             .map(sorted).flatmap(lambda k: st.one_of(
                                 st.just(k), st.permutations(k)))),
                'what': draw(st.sampled_from(['vec', 'mat', 'sparse'])),
                'dirs': draw(gen.dirs_of(dim)),
                'high': draw(st.booleans()), 'mag': draw(gen.MODES),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_inner():
    from hypothesis import strategies as st
    from vlib import gen, ref

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 4))
        pool = draw(gen.dirs_of(dim))
        side = draw(st.lists(st.sampled_from(['1', '2', '12']),
                             min_size=dim, max_size=dim))
        d1 = [d for d, t in zip(pool, side) if '1' in t]
        d2 = [d for d, t in zip(pool, side) if '2' in t]
        if not d1:
            d1 = [pool[0]]
        if not d2:
            d2 = [pool[-1]]
        s = draw(st.sampled_from(gen.SETS))
        ok = [d for d in range(1 if s.startswith('cross') else 0, 12)
              if max(ref.size(len(d1), d, s), ref.size(len(d2), d, s),
                     ref.size(max(1, len(set(d1) ^ set(d2))), d, s)) <= 100]
        return {'d1': d1, 'd2': d2, 'set': s,
                'degree': draw(st.sampled_from(ok)),
                'high': draw(st.booleans()), 'mag': draw(gen.MODES),
                'fac': draw(st.booleans()),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_prod():
    """Products of quadratures, series and matrices as objects."""
    from hypothesis import strategies as st
    from vlib import gen, ref

    @st.composite
    def case(draw):
        dim = draw(st.integers(2, 3))
        q = draw(gen.quad_of(dims=(dim,), kinds=('gauss', 'fourier', 'mixed'),
                             factor=True, diag=True, n=(1, 4)))
        k = draw(st.integers(1, 2**dim - 2))
        s = draw(st.sampled_from(gen.SETS))
        ok = [d for d in range(2 if s.startswith('cross') else 0, 9, 2)
              if ref.size(dim, d, s) <= 60]
        return {'q': q, 'mask': k, 'set': s,
                'degree': draw(st.sampled_from(ok)),
                'sparse': draw(st.booleans()), 'mag': draw(gen.MODES),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_many():
    """Products of several series, matrices and quadratures at once."""
    from hypothesis import strategies as st
    from vlib import gen, ref

    @st.composite
    def case(draw):
        dim = draw(st.integers(2, 4))
        dirs = draw(gen.dirs_of(dim))
        perm = draw(st.permutations(dirs))
        parts, i = [], 0
        while i < dim:
            k = draw(st.integers(1, min(2, dim - i)))
            parts.append(sorted(perm[i:i + k]))
            i += k
        s = draw(st.sampled_from(gen.SETS))
        low = 1 if s.startswith('cross') else 0
        ok = [d for d in range(low, 9) if ref.size(dim, d, s) <= 130]
        types = draw(st.lists(st.sampled_from(
            ['hermite', 'hermite', 'fourier']), min_size=dim, max_size=dim))
        deg = draw(st.sampled_from(ok))
        if 'fourier' in types:
            deg = max(deg - deg % 2, 2*low)
        return {'parts': parts, 'set': s, 'degree': deg, 'types': types,
                'n': draw(st.integers(1, 4)),
                'sparse': draw(st.lists(st.booleans(), min_size=dim,
                                        max_size=dim)),
                'out': draw(st.sampled_from([True, False, None])),
                'mean': draw(gen.vec(dim, gen.num(-2, 2))),
                'var': draw(gen.vec(dim, gen.pos())),
                'mag': draw(gen.MODES), 'fac': draw(st.booleans()),
                'assoc': draw(st.lists(st.integers(0, 5), min_size=3,
                                       max_size=3)),
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_wide():
    """More directions than a set of small integers keeps in order."""
    return s_tensor((8, 9), 12).filter(
        lambda c: c['set'] in ('triangle', 'rectangle')).map(
            lambda c: dict(c, style='dict', degree=min(c['degree'], 1)))


def s_big():
    """Large degrees, in one or two directions."""
    from hypothesis import strategies as st
    from vlib import gen, ref

    @st.composite
    def case(draw):
        which = draw(st.sampled_from(['tensor', 'project', 'inner']))
        s = draw(st.sampled_from(gen.SETS))
        dim = draw(st.sampled_from([1, 2, 2]))
        ok = [d for d in range(15, 251) if ref.size(dim, d, s) <= 20000]
        deg = draw(st.one_of(st.sampled_from(ok), st.sampled_from(
            [d for d in ok if d > 100] or ok)))
        d = draw(gen.dirs_of(2))
        inner = draw(st.sampled_from([[d[:1], d[:1]], [d[:1], d[1:]],
                                      [d, d[1:]], [d[:1], d], [d, d]]))
        if s == 'cross' and which == 'inner':
            deg = min(deg, 250)
        return {'which': which, 'set': s, 'degree': deg, 'dim': dim,
                'what': 'vec', 'mag': draw(gen.MODES), 'high': False,
                'blocks': draw(st.permutations([[0], [1]][:dim])),
                'style': draw(st.sampled_from(['dict', 'list', 'id'])),
                'keep': [draw(st.integers(0, dim - 1))],
                'd1': inner[0], 'd2': inner[1],
                'seed': draw(st.integers(0, 10**6))}
    return case()


def s_join():
    from hypothesis import strategies as st

    @st.composite
    def part(draw, elems):
        elems = draw(st.permutations(elems))
        out, i = [], 0
        while i < len(elems):
            k = draw(st.integers(1, len(elems) - i))
            out.append(sorted(elems[i:i + k]))
            i += k
        return sorted(out)
    return st.sets(st.integers(0, 11), min_size=1, max_size=7).map(
        sorted).flatmap(lambda e: st.fixed_dictionaries(
            {'a': part(e), 'b': part(e), 'set': st.just('cube'),
             'degree': st.just(0), 'seed': st.just(0)}))


SUBS = {'tensor': (s_tensor, 3), 'wide': (s_wide, 1), 'join': (s_join, 1),
        'project': (s_project, 2),
        'inner': (s_inner, 2), 'prod': (s_prod, 2), 'many': (s_many, 2), 'big': (s_big, 1)}


def many(c, mis, rand):
    import numpy as np
    import scipy.sparse as ss
    from vlib.api import hm, close, fail
    s, parts, rng = c['set'], c['parts'], np.random.RandomState(c['seed'])
    dirs = sorted(d for p in parts for d in p)
    at = {d: i for i, d in enumerate(dirs)}
    nodes = [np.sort(rng.uniform(-2, 2, c['n'])) for _ in dirs]
    weights = [rng.uniform(-1, 2, c['n']) for _ in dirs]

    def position(ds):
        return hm.Position(mean=[c['mean'][at[d]] for d in ds],
                           cov=np.diag([c['var'][at[d]] for d in ds]),
                           types=[c['types'][at[d]] for d in ds],
                           dirs=list(ds))

    def factor(ds):
        return '*'.join('exp(-x%d**2/%d + x%d)' % (d, d + 2, d)
                        for d in ds) if c['fac'] else '1'
    whole, full = position(dirs), mis(len(dirs))
    wf = hm.Function(factor(dirs), dirs=list(dirs))
    vec, mat, quads = [], [], []
    wv, wm = 1., 1.
    for j, p in enumerate(parts):
        li = mis(len(p))
        v, m = rand(len(li)), rand(len(li), len(li))
        pos = {k: i for i, k in enumerate(li)}
        ind = [pos[tuple(k[at[d]] for d in p)] for k in full]
        wv, wm = wv*v[ind], wm*m[np.ix_(ind, ind)]
        kw = {'factor': factor(p), 'index_set': s}
        vec.append(hm.Series(v, position(p), **kw))
        mat.append(hm.Varf(ss.csr_matrix(m) if c['sparse'][j] else m,
                           position(p), **kw))
        quads.append(hm.Quad([nodes[at[d]] for d in p],
                             [weights[at[d]] for d in p],
                             position=position(p), factor=factor(p)))

    def chain(xs):
        xs = list(xs)
        for k in c['assoc']:
            if len(xs) > 1:
                k %= len(xs) - 1
                xs[k:k + 2] = [xs[k]*xs[k + 1]]
        return xs[0]

    def space(what, o):
        if o.position != whole:
            fail('%s: position\n%s', what, o.position)
        if o.factor != wf:
            fail('%s: factor %s', what, o.factor)
        if not isinstance(o, hm.Quad) and o.index_set != s:
            fail('%s: index set %s', what, o.index_set)
    for what, o in (('Series.tensorize', hm.Series.tensorize(vec)),
                    ('product of series', chain(vec))):
        space(what, o)
        close(what, o.coeffs, wv, 1e-12*np.abs(wv) + 1e-300)
    kw = {} if c['out'] is None else {'sparse': c['out']}
    for what, o in (('Varf.tensorize', hm.Varf.tensorize(mat, **kw)),
                    ('product of matrices', chain(mat))):
        space(what, o)
        if what == 'Varf.tensorize' and len(parts) > 1 and \
                bool(c['out']) != ss.issparse(o.matrix):
            fail('sparse=%s: a %s', c['out'], type(o.matrix).__name__)
        m = o.matrix.toarray() if ss.issparse(o.matrix) else o.matrix
        close(what, m, wm, 1e-12*np.abs(wm) + 1e-300)
    for what, o in (('Quad.tensorize', hm.Quad.tensorize(quads)),
                    ('product of quadratures', chain(quads))):
        space(what, o)
        close(what + ': nodes', o.nodes, nodes, 0)
        close(what + ': weights', o.weights, weights, 0)
    if hm.Position.tensorize([position(p) for p in parts]) != whole:
        fail('product of positions')
    return len(parts) > 1, [s, '%d parts' % len(parts)]


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import mk, ref
    from vlib.api import hm, core, close, fail, magnitudes, raises
    s, deg = c['set'], c['degree']
    sub = c.get('which', sub)
    kw = {'index_set': s}
    rng = np.random.RandomState(c['seed'])

    def mis(dim):
        return [tuple(m) for m in
                core.iterator_list_indices(dim, deg, **kw).tolist()]

    def rand(*shape):
        v = np.round(rng.uniform(-3, 3, shape), 3)
        if c.get('mag'):
            v = v*magnitudes(rng, shape, c['mag'])
        return v*(rng.uniform(0, 1, shape) < .6) if len(shape) == 2 else v

    if sub == 'join':
        from hermipy.lib import finest_common
        a = {frozenset(x) for x in c['a']}
        b = {frozenset(x) for x in c['b']}
        blocks = [set(x) for x in c['a'] + c['b']]
        want = []                    # connected components
        for x in blocks:
            x = set(x)
            for y in [y for y in want if x & y]:
                want.remove(y)
                x |= y
            want.append(x)
        ka, kb = set(a), set(b)
        got = finest_common(a, b)
        if {frozenset(x) for x in want} != set(got):
            fail('finest common partition of %s and %s: %s', c['a'], c['b'],
                 [sorted(x) for x in got])
        if a != ka or b != kb:
            fail('finest_common changes its arguments')
        return a != b, ['join']

    if sub == 'many':
        return many(c, mis, rand)
    if sub in ('tensor', 'wide'):
        blocks = c['blocks']
        dim = sum(len(b) for b in blocks)
        if c['style'] != 'dict':
            blocks = [[i] for i in range(dim)]
        lists = [mis(len(b)) for b in blocks]
        full = mis(dim)
        if c['what'] == 'vec':
            vs = [rand(len(li)) for li in lists]
            if c['style'] == 'id':
                d = c['seed'] % dim
                for j in range(dim):
                    if j != d:
                        vs[j] = np.eye(len(lists[j]))[0]
                got = core.tensorize(vs[d], dim=dim, direction=d, **kw)
            elif c['style'] == 'list':
                got = core.tensorize(vs, **kw)
            else:
                got = core.tensorize({frozenset(b): v for b, v in
                                      zip(blocks, vs)}, **kw)
            look = [dict(zip(li, v)) for li, v in zip(lists, vs)]
            want = [np.prod([look[j][tuple(m[d] for d in b)]
                             for j, b in enumerate(blocks)]) for m in full]
            close('tensor product of vectors', got, want,
                  1e-12*np.abs(want) + 1e-300)
        else:
            ms = [rand(len(li), len(li)) for li in lists]
            args = [ss.csr_matrix(m) if c['sparse_in'] else m for m in ms]
            dirs = [[c['shift'][d] for d in b] for b in blocks]
            if c['style'] == 'id':
                d = c['seed'] % dim
                for j in range(dim):
                    if j != d:
                        ms[j] = np.eye(len(lists[j]))
                got = core.tensorize(args[d], dim=dim, direction=d,
                                     sparse=c['sparse'], **kw)
            elif c['style'] == 'list':
                got = core.tensorize(args, sparse=c['sparse'], **kw)
            else:
                got = core.tensorize({frozenset(b): v for b, v in
                                      zip(dirs, args)},
                                     sparse=c['sparse'], **kw)
            if c['sparse'] is not isinstance(got, ss.csr_matrix):
                fail('sparse=%s, but the result is a %s', c['sparse'],
                     type(got).__name__)
            got = got.toarray() if c['sparse'] else got
            want = np.ones((len(full), len(full)))
            for j, b in enumerate(blocks):
                pos = {m: i for i, m in enumerate(lists[j])}
                ind = [pos[tuple(m[d] for d in b)] for m in full]
                want = want*ms[j][np.ix_(ind, ind)]
            close('tensor product of matrices', got, want,
                  1e-12*np.abs(want) + 1e-300)
        return len(blocks) > 1, [s, c['what'], c['style'], 'dim%d' % dim]

    if sub == 'project':
        # the core also takes the directions in another order
        dim, keep = c['dim'], list(c['keep'])
        if c['high']:
            keep.sort()
        full, small = mis(dim), mis(len(keep))
        at = {m: i for i, m in enumerate(full)}
        ind = []
        for m in small:
            o = [0]*dim
            for d, k in zip(keep, m):
                o[d] = k
            ind.append(at.get(tuple(o)))
        # the first direction of a rectangle is longer than the others
        if None in ind:
            if s != 'rectangle':
                fail('a projected index is not in the set')
            return False, ['rectangle without its first direction']
        x = rand(len(full)) if c['what'] == 'vec' else \
            rand(len(full), len(full))
        want = x[ind] if c['what'] == 'vec' else x[np.ix_(ind, ind)]
        arg = ss.csr_matrix(x) if c['what'] == 'sparse' else x
        if c['high']:
            dirs = c['dirs']
            posn = hm.Position(mean=rng.uniform(-3, 3, dim), cov=np.diag(
                rng.uniform(1, 4, dim)), dirs=dirs)
            cls = hm.Series if c['what'] == 'vec' else hm.Varf
            obj = cls(arg, posn, index_set=s, factor='exp(-x%d/2)' % dirs[0])
            pr = obj.project([dirs[k] for k in keep])
            if pr.position != posn.project([dirs[k] for k in keep]):
                fail('position of the projection')
            wf = 'exp(-x%d/2)' % dirs[0] if 0 in keep else '1'
            if pr.factor != hm.Function(wf, dirs=[dirs[k] for k in keep]):
                fail('factor of the projection: %s', pr.factor)
            got = pr.coeffs if c['what'] == 'vec' else pr.matrix
        else:
            got = core.project(arg, dim, list(keep), **kw)
            if len(keep) == 1:
                one = core.project(arg, dim, keep[0], **kw)
                close('projection on a direction given as a number',
                      one.toarray() if ss.issparse(one) else one,
                      got.toarray() if ss.issparse(got) else got, 0)
        if c['what'] == 'sparse':
            if not isinstance(got, ss.csr_matrix):
                fail('the projection of a sparse matrix is dense')
            got = got.toarray()
        close('projection', got, want, 0)
        return len(keep) < dim and len(small) > 1, [s, c['what'],
                                                    'dim%d' % dim]

    if sub == 'inner':
        d1, d2 = c['d1'], c['d2']
        l1, l2 = mis(len(d1)), mis(len(d2))
        a, b = rand(len(l1)), rand(len(l2))
        common = [d for d in d1 if d in d2]
        rest = sorted(set(d1) ^ set(d2))
        res, size = {}, {}
        by = {}
        for m, v in zip(l2, b):
            by.setdefault(tuple(m[d2.index(d)] for d in common), []).append(
                (m, v))
        for m, v in zip(l1, a):
            for m2, v2 in by.get(tuple(m[d1.index(d)] for d in common), []):
                r = tuple(m[d1.index(d)] if d in d1 else m2[d2.index(d)]
                          for d in rest)
                res[r] = res.get(r, 0.) + v*v2
                size[r] = size.get(r, 0.) + abs(v*v2)
        lr = mis(len(rest)) if rest else [()]
        want = [res.get(m, 0.) for m in lr]
        tol = 1e-12*np.array([size.get(m, 0.) for m in lr]) + 1e-300
        if c['high']:
            dd = sorted(set(d1) | set(d2))
            mean = {d: round(float(x), 3) for d, x in
                    zip(dd, rng.uniform(-3, 3, len(dd)))}

            def pos(ds):
                return hm.Position(mean=[mean[d] for d in ds], dirs=list(ds),
                                   cov=np.diag([1. + d for d in ds]))

            def fac(ds, extra=''):
                f = '*'.join('exp(-x%d**2/%d)' % (d, d + 2) for d in ds)
                return (f or '1') + extra if c['fac'] else '1'
            r1 = hm.Series(a, pos(d1), index_set=s, factor=fac(d1))
            r2 = hm.Series(b, pos(d2), index_set=s, factor=fac(d2))
            r = r1*r2
            if r.position.dirs != rest:
                fail('directions %s', r.position.dirs)
            if r.factor != hm.Function(fac(rest), dirs=list(rest)):
                fail('factor %s', r.factor)
            if r.index_set != s:
                fail('index set %s', r.index_set)
            if common and c['fac']:
                raises(lambda: r1*hm.Series(
                    b, pos(d2), index_set=s,
                    factor=fac(d2, '*exp(-x%d)' % common[0])), ValueError)
            if rest:
                three = sorted(set(range(5)) - set(rest))[0]
                v3 = rand(len(mis(1)))
                r3 = hm.Series(v3, hm.Position(dirs=[three], mean=[.5],
                                               cov=[[2.]]),
                               index_set=s, factor='exp(-x%d)' % three)
                # (a*b) and another series in a direction of its own
                li = mis(len(rest) + 1)
                dd3 = sorted(rest + [three])
                ok = len(li) <= 400
                if ok:
                    t3 = hm.Series.tensorize([r, r3])
                    at = {m: v for m, v in zip(lr, r.coeffs)}
                    w3 = np.array([at[tuple(
                        k for k, d in zip(m, dd3) if d != three)]*v3[
                            m[dd3.index(three)]] for m in li])
                    if t3.position.dirs != dd3 or t3.index_set != s:
                        fail('product of an inner product: space')
                    close('product of an inner product', t3.coeffs, w3,
                          1e-12*np.abs(w3) + 1e-300)
            if not rest:
                # a scalar, which multiplies others
                for x in (hm.Series.tensorize([r1, r2, r1]),
                          hm.Series.tensorize([r1, r1*r2]), r*r1, r1*r):
                    if x.position != pos(d1) or x.index_set != s or \
                            x.factor != r1.factor:
                        fail('multiple of a series: position, set or factor')
                    close('multiple of a series', x.coeffs, want[0]*a,
                          1e-11*sum(size.values())*np.abs(a) + 1e-300)
                close('product of scalars', float(r*r), want[0]**2,
                      1e-11*sum(size.values())**2 + 1e-300)
            if rest and r.position != pos(rest):
                fail('position of the inner product')
            if not rest:
                close('float of a scalar', float(r), want[0],
                      tol[0])
            got = r.coeffs
        else:
            got = core.inner(a, b, d1, d2, **kw)
        close('inner product', got, want, tol)
        return len(common) > 0 or len(rest) > 1, [
            s, 'common %d' % len(common), 'free %d' % len(rest)]

    # prod
    q = c['q']
    dirs = q['dirs']
    sets = [[i for i in range(len(dirs)) if c['mask'] >> i & 1],
            [i for i in range(len(dirs)) if not c['mask'] >> i & 1]]
    parts = q['factor'].split('*(') if q['factor'] != '1' else []
    parts = [p if p.startswith('(') else '(' + p for p in parts]

    def restrict(ind):
        fs = [p for p in parts if any('x%d' % dirs[i] in p for i in ind)]
        fs += [p for p in parts if 'x' not in p.replace('exp', '')
               and ind is sets[0]]
        return {'kind': 'gauss' if all(q['types'][i] == 'hermite'
                                       for i in ind) else
                'fourier' if all(q['types'][i] == 'fourier' for i in ind)
                else 'mixed', 'dirs': [dirs[i] for i in ind], 'n': q['n'],
                'types': [q['types'][i] for i in ind],
                'mean': [q['mean'][i] for i in ind],
                'cov': [[q['cov'][i][j] for j in ind] for i in ind],
                'factor': '*'.join(fs) or '1'}
    qs = [restrict(ind) for ind in sets]
    whole = mk.quad(q)
    a, b = mk.quad(qs[0]), mk.quad(qs[1])
    g = mk.Grid(q, whole)
    for pr in (a*b, b*a):
        if pr.position != whole.position:
            fail('the position of the product is\n%s', pr.position)
        close('nodes', pr.nodes, whole.nodes, 1e-14)
        close('weights', pr.weights, whole.weights, 1e-14)
        close('factor of the product', pr.discretize(pr.factor),
              g.value(q['factor']), 1e-12*(1 + np.abs(g.value(q['factor']))))
    for i, ind in enumerate(sets):
        p = (a*b).project([dirs[k] for k in ind])
        if p.position != (a, b)[i].position:
            fail('projection of a product of quadratures')
        close('nodes of the projection', p.nodes, (a, b)[i].nodes, 1e-14)
        close('weights of the projection', p.weights, (a, b)[i].weights,
              1e-14)
    l1, l2, lf = mis(len(sets[0])), mis(len(sets[1])), mis(len(dirs))
    p1 = {m: i for i, m in enumerate(l1)}
    p2 = {m: i for i, m in enumerate(l2)}
    i1 = [p1[tuple(m[d] for d in sets[0])] for m in lf]
    i2 = [p2[tuple(m[d] for d in sets[1])] for m in lf]
    v1, v2 = rand(len(l1)), rand(len(l2))
    s1 = a.series(v1, index_set=s)
    s2 = b.series(v2, index_set=s)
    for pr in (s1*s2, s2*s1):
        if pr.position != whole.position or pr.index_set != s:
            fail('position of the product of series')
        want = v1[i1]*v2[i2]
        close('product of series', pr.coeffs, want,
              1e-12*np.abs(want) + 1e-300)
        close('factor of the product', whole.discretize(pr.factor),
              g.value(q['factor']), 1e-12*(1 + np.abs(g.value(q['factor']))))
    m1, m2 = rand(len(l1), len(l1)), rand(len(l2), len(l2))
    cv = ss.csr_matrix if c['sparse'] else np.array
    w1 = hm.Varf(cv(m1), a.position, factor=a.factor, index_set=s)
    w2 = hm.Varf(cv(m2), b.position, factor=b.factor, index_set=s)
    want = m1[np.ix_(i1, i1)]*m2[np.ix_(i2, i2)]
    for pr in (hm.Varf.tensorize([w1, w2], sparse=c['sparse']), w2*w1):
        if pr.position != whole.position or pr.index_set != s:
            fail('position of the product of matrices')
        mm = pr.matrix.toarray() if ss.issparse(pr.matrix) else pr.matrix
        close('product of matrices', mm, want,
              1e-12*np.abs(want) + 1e-300)
        close('factor of the product', whole.discretize(pr.factor),
              g.value(q['factor']), 1e-12*(1 + np.abs(g.value(q['factor']))))
    return True, [s, q['kind'], 'dim%d' % len(dirs)]
