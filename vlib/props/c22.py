"""Composite quadratures are the weighted sums of their parts."""
RULE = ('random lists of one to seven quadratures of one position (any number '
        'of nodes, repeated ones, Gauss, Fourier, mixed and Newton-Cotes '
        'rules) with weights of either sign: integrals and transforms '
        'against the weighted sums of the values at the nodes, matrices '
        'against the weighted sums of those of the parts, in any order; '
        'projections, equality; operands are left as they were; non-trivial '
        'with two parts or more')
ASSUMPTIONS = ['the matrices of single quadratures are decided by C05, C06']
ROUND = {'all': 40}
QUICK_S = 28


def s_all():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        q = draw(gen.quad_of(dims=(1, 2, 3), n=(2, 5), factor=True))
        dim = len(q['dirs'])
        k = draw(st.sampled_from([1, 2, 3, 4, 6, 7] if dim == 1 else
                                 [1, 2, 3, 4]))
        s = draw(st.sampled_from(gen.SETS))
        deg = draw(gen.degree_for(dim, s, 20, 5))
        if 'fourier' in q['types']:
            deg = max(2, deg - deg % 2)
        n = draw(st.lists(st.integers(2, 6), min_size=k, max_size=k))
        bend = [1.]*k
        if draw(st.booleans()):
            # as many nodes, elsewhere
            n = n[:1]*k
            bend = draw(st.lists(st.sampled_from([1., .5, .8, 1.1]),
                                 min_size=k, max_size=k))
        return {'q': q, 'n': n, 'bend': bend,
                'w': [a*draw(st.sampled_from([1, 1, 1, 1e-14, 1e12]))
                      for a in draw(gen.vec(k, gen.num(-2, 2)))],
                'f': draw(gen.expr_of(q['dirs'], atoms=gen.SEPARABLE,
                                      coupled=None)),
                'degree': deg, 'set': s,
                'tensorize': draw(st.booleans()),
                'sparse': draw(st.booleans()),
                'd': draw(st.lists(st.integers(0, dim - 1), max_size=2)),
                'keep': draw(st.integers(0, dim - 1)),
                'step': draw(st.sampled_from([1., .1, 1e-3, 1e-6])),
                'perm': draw(st.permutations(list(range(k)))),
                'seed': draw(st.integers(0, 999))}
    return case()


SUBS = {'all': (s_all, 1)}


def check(sub, c):
    import numpy as np
    import scipy.sparse as ss
    from vlib import ref, mk
    from hermipy.compquad import CompQuad
    from vlib.api import hm, core, close, fail, raises
    hm.settings['tensorize'] = c['tensorize']
    hm.settings['sparse'] = c['sparse']
    q, w, s, deg = c['q'], c['w'], c['set'], c['degree']
    dirs, dim = q['dirs'], len(q['dirs'])
    qs = [dict(q, n=n) for n in c['n']]
    quads = [mk.quad(x) for x in qs]
    if 'fourier' in q['types'] and dim > 1 and not c['tensorize'] and \
            s != 'cube':
        hm.settings['tensorize'] = c['tensorize'] = True
    pos0 = quads[0].position
    # the position of the first for all: Fourier bounds round
    bend = c.get('bend', [1.]*len(w))
    parts = [hm.Quad(x.nodes*b, x.weights, position=pos0, factor=q['factor'])
             for x, b in zip(quads, bend)]
    comp = CompQuad(list(parts), list(w))
    grids = [mk.Grid(x, z, b) for x, z, b in zip(qs, parts, bend)]
    vals = [g.value(c['f']) for g in grids]
    if not all(np.isfinite(v).all() for v in vals):
        return False, ['not finite']
    what = 'integrate'
    want = sum(a*(g.w*v).sum() for a, g, v in zip(w, grids, vals))
    sc = sum(abs(a)*(g.w*np.abs(v)).sum() for a, g, v in zip(w, grids, vals))
    amp = sum(abs(a) for a in w)*max(np.abs(v).max() for v in vals) + 1e-290
    close(what, comp.integrate(c['f']), want, 1e-12*(sc + amp))

    if len(set(c['n'])) == 1:
        v = np.random.RandomState(c['seed']).uniform(-1, 1, vals[0].shape)
        close('integral of an array', comp.integrate(v.copy()),
              sum(a*(g.w*v).sum() for a, g in zip(w, grids)),
              1e-12*sum(abs(a)*np.abs(g.w*v).sum()
                        for a, g in zip(w, grids)) + 1e-290)
    # transform
    mi = core.iterator_list_indices(dim, deg, index_set=s)
    t = comp.transform(c['f'], deg, index_set=s)
    if not isinstance(t, hm.Series) or t.position != pos0 or \
            t.index_set != s or t.degree != deg:
        fail('transform: wrong kind, position, index set or degree')
    want, sc = 0, 0
    for a, g, v in zip(w, grids, vals):
        b = g.basis(mi)
        fac = g.value(q['factor'])
        u = g.w*v/fac
        want = want + a*b.dot(u)
        sc = sc + abs(a)*np.abs(b).dot(np.abs(u)) + \
            abs(a)*np.abs(b).max()*np.abs(u).max()
    close('transform', t.coeffs, want, 1e-11*sc + 1e-290)

    def dense(m):
        return m.toarray() if ss.issparse(m) else np.asarray(m)

    def total(what, got, each):
        if not isinstance(got, hm.Varf) or got.position != pos0 or \
                got.index_set != s or got.degree != deg:
            fail('%s: wrong kind, position, index set or degree', what)
        want = sum(a*dense(e.matrix) for a, e in zip(w, each))
        sc = sum(abs(a)*np.abs(dense(e.matrix)) for a, e in zip(w, each))
        close(what, dense(got.matrix), want, 1e-11*sc + 1e-290)
    opt = {'index_set': s, 'sparse': c['sparse']}
    total('varf', comp.varf(c['f'], deg, **opt),
          [p.varf(c['f'], deg, **opt) for p in parts])
    dd = [dirs[i] for i in c['d']]
    total('varfd', comp.varfd(c['f'], deg, dd, **opt),
          [p.varfd(c['f'], deg, dd, **opt) for p in parts])
    var = hm.Function.xyz
    u = hm.Operator.f
    x = [var[d] for d in dirs]
    fun = u(*x)
    op = x[0]*fun.diff(x[-1]) - fun*2
    if q['factor'] == '1' or q['kind'] == 'gauss':
        total('discretize_op', comp.discretize_op(op, deg, **opt),
              [p.discretize_op(op, deg, **opt) for p in parts])
    # order
    other = CompQuad([parts[i] for i in c['perm']],
                        [w[i] for i in c['perm']])
    close('in another order', other.integrate(c['f']),
          comp.integrate(c['f']), 1e-10*amp + 1e-290)
    # equality
    again = CompQuad([hm.Quad(p.nodes, p.weights, position=pos0,
                                 factor=q['factor']) for p in parts],
                        list(w))
    if not comp == again or not again == comp:
        fail('the same composite twice is not equal')
    if len(set(c['n'])) == len(w) > 1:
        w2 = [w[i] for i in c['perm']]
        if max(abs(a - b) for a, b in zip(w, w2)) > 1e-9 and \
                comp == CompQuad(list(parts), w2):
            fail('composites of the same weights elsewhere are equal')
    w2 = list(w)
    w2[-1] += .5 + abs(w2[-1])
    if comp == CompQuad(list(parts), w2):
        fail('composites of other weights are equal')
    if comp == CompQuad(list(parts) + [parts[0]], list(w) + [0.]):
        fail('composites of more parts are equal')
    n2 = [hm.Quad(*[np.hstack([a, a[:, :1]]) for a in (p.nodes, p.weights)],
                  position=pos0, factor=q['factor']) for p in parts]
    if comp == CompQuad(n2, list(w)):
        fail('composites of other numbers of nodes are equal')
    one = CompQuad([parts[0]], [1])
    if not one == parts[0]:
        fail('a composite of one quadrature differs from it')
    # parts elsewhere
    if len(parts) > 1:
        k = c['seed'] % len(parts)
        m2, c2 = np.array(pos0.mean), np.array(pos0.cov)
        if c['keep'] % 2:
            c2[0][0] += c['step']
        else:
            m2[-1] += c['step']
        strange = hm.Quad(parts[k].nodes, parts[k].weights,
                          position=hm.Position(mean=m2, cov=c2, dirs=list(
                              dirs), types=list(q['types'])),
                          factor=q['factor'])
        raises(lambda: CompQuad(parts[:k] + [strange] + parts[k + 1:],
                                list(w)))
    # projections
    if pos0.is_diag:
        d = dirs[c['keep']]
        pr = comp.project(d)
        f1 = 'x%d**2 + cos(x%d)' % (d, d)
        if list(pr.position.dirs) != [d]:
            fail('projection on %d: %s', d, pr.position.dirs)
        want, sc = 0, 0
        for a, g in zip(w, grids):
            i = c['keep']
            y = g.mean[i] + g.F[i][i]*np.array(g.nodes[i])
            v = y**2 + np.cos(y)
            want += a*(g.weights[i]*v).sum()
            sc += abs(a)*(g.weights[i]*np.abs(v)).sum()
        close('projection integrates', pr.integrate(f1), want,
              1e-10*sc + 1e-290)
    if list(comp.qweights) != list(w) or len(comp.quads) != len(w) or \
            any(a is not b for a, b in zip(comp.quads, parts)):
        fail('the composite has changed')
    return len(w) > 1, ['parts%d' % len(w), q['kind'], s]
