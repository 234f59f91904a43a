"""Positions and quadratures are the geometry they describe."""
RULE = ('random means, covariances (diagonal or full), directions and types: '
        'the factor is a square root of the covariance, weight() is the '
        'density, project() keeps exactly the given directions, products '
        'join the directions that occur once and drop those that occur '
        'twice, constructors give the nodes and weights of their rule, '
        'equality tells every parameter; non-trivial when the dimension is 2 '
        'or more or mean and covariance are not the default')
ASSUMPTIONS = ['equality is asked for identical parameters and for ones that '
               'differ by 1e-4 or more']
ROUND = {}
QUICK_S = 24


def s_pos():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 4))
        t = draw(st.sampled_from(['hermite', 'fourier', 'mixed']))
        cov = draw(gen.cov_of(dim, True if t == 'fourier' else None, True))
        types = ['hermite' if t == 'hermite' or t == 'mixed' and
                 draw(st.integers(0, 2)) else 'fourier' for _ in range(dim)]
        # a Fourier direction is independent of the others
        cov = [[v if i == j or types[i] == types[j] == 'hermite' else 0.
                for j, v in enumerate(row)] for i, row in enumerate(cov)]
        return {'dim': dim, 'dirs': draw(gen.dirs_of(dim)),
                'mean': draw(gen.vec(dim)), 'cov': cov, 'types': types,
                'give': draw(st.lists(st.booleans(), min_size=5,
                                      max_size=5)),
                'change': draw(st.sampled_from(['mean', 'cov', 'off', 'dirs',
                                                'types'])),
                'i': draw(st.integers(0, dim - 1)),
                'delta': draw(st.sampled_from([1e-4, -1e-3, .5, 3.])),
                'keep': draw(st.lists(st.booleans(), min_size=dim,
                                      max_size=dim)),
                'seed': draw(st.integers(0, 9999))}
    return case()


def s_tens():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        base = {'mean': draw(gen.vec(5)), 'var': draw(gen.vec(5, gen.pos())),
                'types': draw(st.lists(st.sampled_from(
                    ['hermite', 'fourier']), min_size=5, max_size=5))}
        parts = draw(st.lists(st.sets(st.integers(0, 4), min_size=1,
                                      max_size=4).map(sorted),
                              min_size=1, max_size=4))
        # now and then a part disagrees about a direction
        odd = draw(st.one_of(st.none(), st.tuples(
            st.integers(0, len(parts) - 1), st.integers(0, 4),
            st.sampled_from(['mean', 'var', 'types']))))
        return {'base': base, 'parts': parts, 'odd': odd and list(odd)}
    return case()


def s_quad():
    from hypothesis import strategies as st
    from vlib import gen
    return st.fixed_dictionaries({
        'q': gen.quad_of(dims=(1, 2, 3), n=(2, 6), factor=True, scales=True),
        'how': st.sampled_from(['nodes', 'dim', 'list', 'bounds', 'position',
                                'default']),
        'change': st.sampled_from(['mean', 'cov', 'factor', 'nodes',
                                   'weights', 'dirs', 'nodes2', 'weights2',
                                   'swap']),
        'delta': st.sampled_from([1e-3, -1e-3, 1e-4, .1, -1.]),
        'far': st.sampled_from([1., 1., .25, 3., 8.]),
        'keep': st.lists(st.booleans(), min_size=3, max_size=3),
        'other': gen.quad_of(dims=(1, 2), n=(2, 4), factor=True),
        'seed': st.integers(0, 9999)})


SUBS = {'pos': (s_pos, 2), 'tens': (s_tens, 1), 'quad': (s_quad, 2)}


def density(mean, cov, types, x):
    import numpy as np
    ind = [i for i, t in enumerate(types) if t == 'hermite']
    if not ind:
        return np.ones(len(x))
    c = np.array(cov, float)[np.ix_(ind, ind)]
    y = x[:, ind] - np.array(mean, float)[ind]
    e = np.einsum('ni,ij,nj->n', y, np.linalg.inv(c), y)/2
    return np.exp(-e)/np.sqrt((2*np.pi)**len(ind)*np.linalg.det(c))


def named(expr):
    """With the variables x0, x1, ... for x, y, ..."""
    import sympy
    from vlib import ref
    new = {s: sympy.Symbol('x%d' % ref.XYZ.index(s.name), real=True)
           for s in sympy.sympify(expr).free_symbols if s.name in ref.XYZ}
    return expr.xreplace(new)


def check(sub, c):
    import numpy as np
    from vlib.api import hm, close, fail, raises
    from vlib.props.c13 import value
    if sub == 'tens':
        return tens(c)
    if sub == 'quad':
        return quads(c)
    rng = np.random.RandomState(c['seed'])
    dim = c['dim']
    p = hm.Position(mean=c['mean'], cov=c['cov'], dirs=list(c['dirs']),
                    types=list(c['types']))
    cov, mean = np.array(c['cov']), np.array(c['mean'])
    F = np.array(p.factor)
    close('factor factor^T', F.dot(F.T), cov, 1e-13*np.abs(cov).max())
    diag = np.abs(cov - np.diag(np.diag(cov))).max() == 0
    if bool(p.is_diag) != diag:
        fail('is_diag is %s', p.is_diag)
    if diag:
        close('factor', F, np.sqrt(cov), 1e-14*np.sqrt(cov))
    # defaults
    g = c['give']
    kw = {}
    if g[0]:
        kw['mean'] = c['mean']
    if g[1]:
        kw['cov'] = c['cov']
    if g[2]:
        kw['dirs'] = list(c['dirs'])
    if g[3]:
        kw['dim'] = dim
    if not kw:
        raises(lambda: hm.Position(), ValueError)
        kw['dim'] = dim
    if g[4]:
        kw['types'] = list(c['types'])
    d = hm.Position(**kw)
    if d.dim != dim or list(d.dirs) != (c['dirs'] if g[2] else
                                        list(range(dim))):
        fail('Position(%s): dimension %s, directions %s', kw, d.dim, d.dirs)
    close('default mean', d.mean, mean if g[0] else 0*mean, 0)
    close('default cov', d.cov, cov if g[1] else np.eye(dim), 0)
    if list(d.types) != (c['types'] if g[4] else ['hermite']*dim):
        fail('types %s', d.types)
    # density
    sd = np.sqrt(np.diag(cov))
    x = mean + rng.uniform(-2, 2, (5, dim))*sd
    w = density(c['mean'], c['cov'], c['types'], x)
    # the condition number does not depend on the units
    cond = np.linalg.cond(cov/np.outer(sd, sd))
    close('weight', value(named(p.weight()), c['dirs'], x), w,
          w*(1e-10 + 1e-12*cond + 1e-14*cond*np.abs(mean/sd).max()))
    if diag:
        ws = p.weights()
        if len(ws) != dim:
            fail('%d weights', len(ws))
        for i in range(dim):
            close('weights()[%d]' % i, value(named(ws[i]), [c['dirs'][i]],
                                             x[:, i:i + 1]),
                  density([c['mean'][i]], [[c['cov'][i][i]]],
                          [c['types'][i]], x[:, i:i + 1]),
                  1e-10*density([c['mean'][i]], [[c['cov'][i][i]]],
                                [c['types'][i]], x[:, i:i + 1]))
        keep = [k for k in range(dim) if c['keep'][k]]
        kd = [c['dirs'][k] for k in keep]
        r = p.project(kd)
        if list(r.dirs) != kd or r.dim != len(kd):
            fail('projected on %s: %s', kd, r.dirs)
        close('projected mean', r.mean, mean[keep], 0)
        close('projected cov', r.cov, cov[np.ix_(keep, keep)], 0)
        if list(r.types) != [c['types'][k] for k in keep]:
            fail('projected types %s', r.types)
        if kd:
            r1 = p.project(kd[0])
            if r1 != p.project([kd[0]]):
                fail('project(%d) is not project([%d])', kd[0], kd[0])
            # joining what was taken apart
            rest = [k for k in c['dirs'] if k not in kd]
            if rest and p.project(kd)*p.project(rest) != p:
                fail('the product of the projections differs')
    # equality
    q = hm.Position(mean=c['mean'], cov=c['cov'], dirs=list(c['dirs']),
                    types=list(c['types']))
    if not p == q or p != q:
        fail('the same parameters give different positions')
    m2, c2, d2, t2 = mean.copy(), cov.copy(), list(c['dirs']), \
        list(c['types'])
    i, ch = c['i'], c['change']
    if ch == 'mean':
        m2[i] += c['delta']
    elif ch == 'cov' or ch == 'off' and dim == 1:
        c2[i][i] += abs(c['delta'])
    elif ch == 'off':
        j = (i + 1) % dim
        c2[i][j] = c2[j][i] = c2[i][j] + max(1e-3*min(sd)**2, 1e-9)
    elif ch == 'dirs':
        d2 = sorted([k for k in range(6) if k not in d2][:1] + d2[1:])
    else:
        t2[i] = 'fourier' if t2[i] == 'hermite' else 'hermite'
    try:
        np.linalg.cholesky(c2)
    except np.linalg.LinAlgError:
        return False, ['not a covariance']
    q = hm.Position(mean=m2, cov=c2, dirs=d2, types=t2)
    if p == q or q == p:
        fail('positions that differ in %s are equal', ch)
    close('mean kept', p.mean, mean, 0)
    close('cov kept', p.cov, cov, 0)
    return dim > 1, [ch, 'diag' if diag else 'full'] + c['types']


def tens(c):
    import numpy as np
    from vlib.api import hm, close, fail, raises
    base, parts, odd = c['base'], c['parts'], c['odd']
    ps, datas = [], []
    for k, dirs in enumerate(parts):
        data = {}
        for d in dirs:
            t = [base['mean'][d], base['var'][d], base['types'][d]]
            if odd and odd[0] == k and odd[1] == d:
                if odd[2] == 'mean':
                    t[0] += 1
                elif odd[2] == 'var':
                    t[1] += .5
                else:
                    t[2] = 'fourier' if t[2] == 'hermite' else 'hermite'
            data[d] = t
        datas.append(data)
        ps.append(hm.Position(
            mean=[data[d][0] for d in dirs],
            cov=np.diag([data[d][1] for d in dirs]), dirs=list(dirs),
            types=[data[d][2] for d in dirs]))
    count = {}
    for dirs in parts:
        for d in dirs:
            count[d] = count.get(d, 0) + 1
    if max(count.values()) > 2:
        raises(lambda: hm.Position.tensorize(ps), ValueError)
        return True, ['thrice']
    want, bad = dict(datas[0]), False
    for data in datas[1:]:
        for d in data:
            if d in want:
                bad = bad or want[d] != data[d]
                del want[d]
            else:
                want[d] = data[d]
    f = (lambda: ps[0]*ps[1]) if len(ps) == 2 else \
        (lambda: hm.Position.tensorize(ps))
    if bad:
        raises(f, ValueError)
        return True, ['disagree']
    r = f()
    dirs = sorted(want)
    if list(r.dirs) != dirs or r.dim != len(dirs):
        fail('product of %s: directions %s', parts, r.dirs)
    close('mean', r.mean, [want[d][0] for d in dirs], 0)
    close('cov', np.asarray(r.cov).reshape(len(dirs), len(dirs)),
          np.diag([want[d][1] for d in dirs]).reshape(len(dirs), len(dirs)),
          0)
    if list(r.types) != [want[d][2] for d in dirs]:
        fail('types %s', r.types)
    return len(parts) > 1, ['parts%d' % len(parts), 'dim%d' % len(dirs)]


def quads(c):
    import numpy as np
    from vlib import mk
    from vlib.api import hm, close, fail
    from vlib.props.c13 import value
    q, how = dict(c['q']), c['how']
    dim, dirs, n = len(q['dirs']), q['dirs'], q['n']
    quad = mk.quad(q)
    g = mk.Grid(q, quad)
    labels = [q['kind'], how]

    def same(what, o, nodes, weights, mean, cov, dirs, types, factor):
        if list(o.position.dirs) != list(dirs) or \
                list(o.position.types) != list(types) or \
                list(o.do_fourier) != [int(t == 'fourier') for t in types]:
            fail('%s: directions %s, types %s, flags %s', what,
                 o.position.dirs, o.position.types, o.do_fourier)
        close(what + ' nodes', o.nodes, nodes, 1e-12*(1 + np.abs(nodes)))
        close(what + ' weights', o.weights, weights,
              1e-12*np.abs(weights) + 1e-300)
        close(what + ' mean', o.position.mean, mean, 1e-13*(
            1 + np.abs(mean) + np.sqrt(np.diag(cov))))
        close(what + ' cov', o.position.cov, cov, 1e-12*(
            np.abs(cov) + np.sqrt(np.outer(np.diag(cov), np.diag(cov)))*(
                np.abs(mean)/np.sqrt(np.diag(cov))).max()*any(
                    t == 'fourier' for t in types)))
        rng = np.random.RandomState(c['seed'])
        x = rng.uniform(-1, 1, (3, len(dirs)))
        w = value(hm.Function(factor, dirs=list(dirs)).sym, dirs, x)
        close(what + ' factor', value(o.factor.sym, dirs, x), w,
              1e-11*(1 + np.abs(w)))
    nodes, weights = np.array(g.nodes), np.array(g.weights)
    mean, cov = np.array(q['mean']), np.array(q['cov'])
    same('Quad', quad, nodes, weights, mean, cov, dirs, q['types'],
         q['factor'])
    close('mapped nodes', quad.mapped_nodes(), g.x,
          1e-11*(1 + np.abs(g.x).max()))
    # other ways to the same rule
    if q['kind'] == 'gauss':
        if how == 'dim':
            o = hm.Quad.gauss_hermite(n, dim=dim)
        elif how == 'list':
            o = hm.Quad.gauss_hermite([n]*dim)
        elif how == 'position':
            o = hm.Quad.gauss_hermite([n]*dim, position=mk.position(q),
                                      factor=q['factor'])
        elif how == 'default' and dim == 1:
            o = hm.Quad.gauss_hermite(n)
        else:
            o = hm.Quad(nodes.tolist(), weights.tolist(), mean=q['mean'],
                        cov=q['cov'], dirs=list(dirs), factor=q['factor'])
        plain = how in ('dim', 'list') or how == 'default' and dim == 1
        if plain:
            same('gauss_hermite by ' + how, o, nodes, weights, 0*mean,
                 np.eye(dim), list(range(dim)), ['hermite']*dim, '1')
        else:
            same('gauss_hermite by ' + how, o, nodes, weights, mean, cov,
                 dirs, q['types'], q['factor'])
    elif q['kind'] == 'fourier':
        if how == 'position':
            o = hm.Quad.fourier(n, position=mk.position(q),
                                factor=q['factor'])
            same('fourier by position', o, nodes, weights, mean, cov, dirs,
                 q['types'], q['factor'])
        elif how == 'bounds':
            b = [(mean[i] - np.pi*np.sqrt(cov[i][i]),
                  mean[i] + np.pi*np.sqrt(cov[i][i])) for i in range(dim)]
            o = hm.Quad.fourier(n, bounds=b)
            same('fourier by bounds', o, nodes, weights, mean, cov,
                 list(range(dim)), q['types'], '1')
            # boxes with a common end, or of a common length
            left, length = mean.copy(), np.sqrt(np.diag(cov))
            k = c['seed'] % 4
            if k == 1:
                left[:] = left[0]
            elif k == 2:
                left = left[0] - length
            elif k == 3:
                length[:] = length[0]
            o = hm.Quad.fourier(n, bounds=list(zip(left, left + length)))
            same('fourier by other bounds', o, nodes, weights,
                 left + length/2, np.diag((length/(2*np.pi))**2),
                 list(range(dim)), q['types'], '1')
        elif how == 'list':
            o = hm.Quad.fourier([n]*dim)
            same('fourier by list', o, nodes, weights, 0*mean, np.eye(dim),
                 list(range(dim)), q['types'], '1')
        elif how == 'dim':
            o = hm.Quad.fourier(n, dirs=list(dirs))
            same('fourier by dirs', o, nodes, weights, 0*mean, np.eye(dim),
                 dirs, q['types'], '1')
    elif q['kind'] == 'newton':
        r = [(3. + i)*c['far'] for i in range(dim)]
        o = hm.Quad.newton_cotes([n]*dim, r, dirs=list(dirs),
                                 mean=q['mean'], cov=q['cov'],
                                 factor=q['factor'])
        fn = np.array([np.linspace(-e, e, n) for e in r])
        fw = np.exp(-fn**2/2)/np.sqrt(2*np.pi)*2*np.array(r)[:, None]/(n - 1)
        fw[:, 0] /= 2
        fw[:, -1] /= 2
        same('newton_cotes', o, fn, fw, mean, cov, dirs, q['types'],
             q['factor'])
    # projections
    diag = np.abs(cov - np.diag(np.diag(cov))).max() == 0
    if diag:
        keep = [k for k in range(dim) if c['keep'][k]] or [dim - 1]
        kd = [dirs[k] for k in keep]
        r = quad.project(kd)
        x = np.random.RandomState(c['seed']).uniform(-1, 1, (3, len(kd)))
        same('projection on %s' % kd, r, nodes[keep], weights[keep],
             mean[keep], cov[np.ix_(keep, keep)], kd,
             [q['types'][k] for k in keep], r.factor)
        rest = [d for d in dirs if d not in kd]
        if rest:
            o = quad.project(rest)
            both = o*r
            x = np.random.RandomState(c['seed']).uniform(-1, 1, (4, dim))
            w1 = value(both.factor.sym, dirs, x)
            w2 = value(quad.factor.sym, dirs, x)
            # projections keep a factor up to a constant
            close('factor of the product of the projections',
                  w1*w2[0], w2*w1[0], 1e-9*np.abs(w2*w1[0]))
            same('product of the projections', both, nodes, weights, mean,
                 cov, dirs, q['types'], both.factor)
            labels.append('taken apart')
    # products with other rules of as many points
    o = dict(c['other'], n=n)
    free = [d for d in range(5) if d not in dirs]
    if diag and len(free) >= len(o['dirs']):
        od = free[:len(o['dirs'])]
        ocov = np.diag(np.diag(np.array(o['cov'])))
        o = dict(o, dirs=od, cov=ocov.tolist(), factor='1')
        oq = mk.quad(o)
        og = mk.Grid(o, oq)
        alld = sorted(dirs + od)
        for what, t in (('a*b', quad*oq), ('b*a', oq*quad)):
            def pick(a, b):
                return np.array([a[dirs.index(d)] if d in dirs
                                 else b[od.index(d)] for d in alld])
            ty = [q['types'][dirs.index(d)] if d in dirs
                  else o['types'][od.index(d)] for d in alld]
            same(what, t, pick(nodes, np.array(og.nodes)),
                 pick(weights, np.array(og.weights)),
                 pick(mean, np.array(o['mean'])),
                 np.diag(pick(np.diag(cov), np.diag(ocov))), alld, ty,
                 q['factor'])
        labels.append('product')
    # equality
    if quad == mk.quad(dict(q, n=n + 1 + c['seed'] % 3)):
        fail('quadratures of different numbers of nodes are equal')
    if not quad == mk.quad(q):
        fail('the same rule twice is not equal')
    m2, c2, d2, f2, n2, w2 = mean.copy(), cov.copy(), list(dirs), \
        q['factor'], nodes.copy(), weights.copy()
    ch = c['change']
    if ch == 'mean':
        m2[-1] += .01
    elif ch == 'cov':
        c2[0][0] += .01
    elif ch == 'factor':
        f2 = '(%s)*exp(-x%d/4)' % (f2, dirs[-1])
    elif ch == 'nodes':
        n2[-1][-1] += c['delta']
    elif ch == 'nodes2':
        n2[0][0] += c['delta']
        n2[-1][-1] -= c['delta']
    elif ch == 'weights2':
        w2[0][0] += c['delta']
        w2[-1][-1] -= c['delta']
    elif ch == 'swap':
        # the same weights at other nodes
        j = c['seed'] % dim
        w2[j] = w2[j][::-1]*np.linspace(1, 2, len(w2[j]))
        weights[j] = w2[j][::-1]
        quad = hm.Quad(nodes, weights, factor=q['factor'],
                       position=quad.position)
    elif ch == 'weights':
        w2[0][0] += c['delta']
    else:
        if len(dirs) == 1:
            d2 = [(dirs[0] + 1) % 5]
            f2 = '1'
        else:
            w2[-1][-1] += 1e-3
    o = hm.Quad(n2, w2, factor=f2, position=hm.Position(
        mean=m2, cov=c2, dirs=d2, types=list(q['types'])))
    if quad == o or o == quad:
        fail('quadratures that differ in %s are equal', ch)
    return dim > 1, labels
