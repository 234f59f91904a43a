"""Symbolic operators act as the operators they denote."""
RULE = ('random linear operators (coefficients in x, derivatives of total '
        'order up to 5, any directions and names) and random algebra on '
        'them, applied to random functions, against derivatives taken '
        'directly, at random points; also operators written with unevaluated '
        'derivatives of products, and non-linear ones, which split refuses; non-trivial when a derivative is taken')
ASSUMPTIONS = ['derivatives up to total order 5']
ROUND = {'raw': 15, 'apply': 20, 'algebra': 15, 'map': 15, 'split': 20}
QUICK_S = 24

TESTS = ['exp({a}*{x}/2)', '{x}**{k}', 'sin({x})', 'exp(-{x}**2/4)']
COEF = ['1', '{x}', '-2', '{x}**2', '1/2', 'cos({x})', '(1 - {x})',
        'exp({x}/2)', '{x}**3', '3', '3e-12', '0.1']
# nothing cancels in a split
SPLIT = COEF + ['1234567.0123456789', '-2.5e9', '1.23456789e-5*{x}']


def s_op(draw, dirs, top=5, terms=4, coef=COEF):
    from hypothesis import strategies as st
    out = {}
    for _ in range(draw(st.integers(1, terms))):
        alpha = [0]*len(dirs)
        for _ in range(draw(st.integers(0, top))):
            alpha[draw(st.integers(0, len(dirs) - 1))] += 1
        co = []
        for _ in range(draw(st.integers(1, 2))):
            co.append(draw(st.sampled_from(coef)).replace(
                '{x}', 'x%d' % draw(st.sampled_from(dirs))))
        out[','.join(map(str, alpha))] = '*'.join(
            '(' + p + ')' for p in co)
    return out


def s_fun(draw, dirs):
    from hypothesis import strategies as st
    parts = []
    for d in dirs:
        if draw(st.integers(0, 3)):
            t = draw(st.sampled_from(TESTS))
            parts.append('(' + t.replace('{x}', 'x%d' % d).replace(
                '{a}', draw(st.sampled_from(['1', '-1', '3']))).replace(
                '{k}', str(draw(st.integers(0, 6)))) + ')')
    return '*'.join(parts) or '1'


def s_case(top=5, terms=4, coef=COEF):
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 3))
        dirs = draw(gen.dirs_of(dim))
        return {'dirs': dirs, 'L': s_op(draw, dirs, top, terms, coef),
                'M': s_op(draw, dirs, 2, 2), 'g': s_fun(draw, dirs),
                'h': s_fun(draw, dirs),
                'op': draw(st.sampled_from(['+', '-', 'neg', '*', 'r*', '*k',
                                            'comp', 'comp2', '+e', '-e',
                                            'sum'])),
                'k': draw(st.sampled_from([2, -3, .5, '1/3'])),
                'xyz': draw(st.booleans()),
                'name': draw(st.sampled_from(['f', 'u', 'rho'])),
                'pts': draw(st.lists(gen.vec(dim, gen.num(-1, 1)),
                                     min_size=2, max_size=3))}
    return case()


def s_raw():
    """Unevaluated derivatives of products, nested twice at most."""
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 3))
        dirs = draw(gen.dirs_of(dim))

        def coef():
            return draw(st.sampled_from(COEF)).replace(
                '{x}', 'x%d' % draw(st.sampled_from(dirs)))
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            layers = []
            for _ in range(draw(st.integers(1, 2))):
                layers.append([coef(), [draw(st.sampled_from(dirs)) for _ in
                                        range(draw(st.integers(0, 2)))]])
            terms.append(layers)
        return {'dirs': dirs, 'terms': terms, 'g': s_fun(draw, dirs),
                'string': draw(st.booleans()),
                'bad': draw(st.sampled_from(['{u}**2', '{u}*{d}', 'exp({u})',
                                             '{x}', '1', 'sin({d})',
                                             '{u}*{x}*{u}'])),
                'pts': draw(st.lists(gen.vec(dim, gen.num(-1, 1)),
                                     min_size=2, max_size=3))}
    return case()


def check_raw(c):
    import numpy as np
    import sympy
    from vlib.api import hm, close, fail, raises
    from vlib.props.c13 import value
    dirs, pts = c['dirs'], np.array(c['pts'], float)
    var = {d: sympy.Symbol('x%d' % d, real=True) for d in dirs}
    loc = {'x%d' % d: v for d, v in var.items()}
    u = sympy.Function('f')(*var.values())
    g = sympy.sympify(c['g'], locals=loc)
    tot, want = sympy.Integer(0), sympy.Integer(0)
    for layers in c['terms']:
        e, w = u, g
        for co, ds in layers:
            k = sympy.sympify(co, locals=loc)
            e, w = k*e, k*w
            for d in ds:
                e = sympy.Derivative(e, var[d])
                w = sympy.diff(w, var[d])
        tot, want = tot + e, want + w
    if not tot.has(u):
        return False, ['null']
    L = hm.Operator(str(tot) if c['string'] else tot, dirs=dirs)
    w = value(want, dirs, pts)
    sc = sum(np.abs(value(t, dirs, pts)) for t in
             sympy.Add.make_args(sympy.expand(want)))
    ok = np.isfinite(w) & np.isfinite(sc)
    tol = 1e-12*(1 + sc[ok])
    close('L g', value(L(hm.Function(c['g'], dirs=dirs)).sym, dirs,
                       pts)[ok], w[ok], tol)
    sp = L.split()
    s = sympy.Integer(0)
    for a, f in sp.items():
        e = g
        for d, k in zip(dirs, a):
            e = sympy.diff(e, var[d], k) if k else e
        s = s + f.sym*e
    close('sum of the terms of the split on g', value(s, dirs, pts)[ok],
          w[ok], tol)
    h = sympy.exp(-sum(v**2 for v in var.values())/4)
    bad = hm.Operator(str(tot) + ' + ' + c['bad'].replace(
        '{u}', str(u)).replace('{x}', str(var[dirs[0]])).replace(
            '{d}', 'Derivative(%s, %s)' % (u, var[dirs[0]])), dirs=dirs)
    raises(bad.split, ValueError)
    mapped = sympy.Integer(0)
    for layers in c['terms']:
        e = h*g
        for co, ds in layers:
            e = sympy.sympify(co, locals=loc)*e
            for d in ds:
                e = sympy.diff(e, var[d])
        mapped = mapped + e
    w = value(mapped/h, dirs, pts)
    sc = sum(np.abs(value(t, dirs, pts)) for t in
             sympy.Add.make_args(sympy.expand(mapped/h)))
    ok = np.isfinite(w) & np.isfinite(sc)
    r = L.map(h)(hm.Function(c['g'], dirs=dirs))
    close('mapped operator', value(r.sym, dirs, pts)[ok], w[ok],
          1e-12*(1 + sc[ok]))
    return any(ds for ls in c['terms'] for _, ds in ls), ['raw', c['bad']]


SUBS = {'raw': (s_raw, 2), 'apply': (s_case, 2), 'algebra': (lambda: s_case(3, 2), 3),
        'map': (lambda: s_case(3, 3), 2), 
        'split': (lambda: s_case(coef=SPLIT), 3)}


def check(sub, c):
    if sub == 'raw':
        return check_raw(c)
    import numpy as np
    import sympy
    from vlib.api import hm, close, fail, raises
    from vlib.props.c13 import value
    dirs, pts = c['dirs'], np.array(c['pts'], float)
    var = [sympy.Symbol('x%d' % d, real=True) for d in dirs]
    loc = {'x%d' % d: v for d, v in zip(dirs, var)}
    P = hm.Operator

    def S(text):
        return sympy.sympify(text, locals=loc)

    def act(op, expr):
        """The definition."""
        tot = sympy.Integer(0)
        for a, co in op.items():
            e = expr
            for v, k in zip(var, a.split(',')):
                if int(k):
                    e = sympy.diff(e, v, int(k))
            tot = tot + S(co)*e
        return tot

    def build(op):
        names = [hm.Function.xyz[d] for d in dirs] if c['xyz'] else var
        u = sympy.Function(c['name'])(*names)
        tot = sympy.Integer(0)
        for a, co in op.items():
            e = u
            for v, k in zip(names, a.split(',')):
                if int(k):
                    e = sympy.diff(e, v, int(k))
            tot = tot + S(co).subs(list(zip(var, names)))*e
        return tot

    def cmp(what, got, want):
        if got.dirs != dirs:
            fail('%s: directions %s', what, got.dirs)
        sym = got.sym
        if sym.atoms(sympy.core.function.AppliedUndef):
            fail('%s: still an operator: %s', what, sym)
        w = value(want, dirs, pts)
        g = value(sym, dirs, pts)
        sc = sum(np.abs(value(t, dirs, pts)) for t in
                 sympy.Add.make_args(sympy.expand(want)))
        ok = np.isfinite(w) & np.isfinite(sc)
        close(what, g[ok], w[ok], 1e-12*(1 + sc[ok]))

    L = P(build(c['L']), dirs=dirs)
    if L.dirs != dirs:
        fail('directions of the operator: %s', L.dirs)
    g, h = S(c['g']), S(c['h'])
    nt = any(a.replace(',', '').strip('0') for a in c['L'])

    if sub == 'apply':
        for arg in (c['g'], hm.Function(c['g'], dirs=list(dirs)), g):
            r = L(arg)
            if not isinstance(r, hm.Function):
                fail('an operator applied to a function is a %s', type(r))
            cmp('L g', r, act(c['L'], g))
        for same in (P(L), P(L.as_xyz(), dirs=dirs), P(L.sym, dirs=dirs)):
            if same != L:
                fail('%s is not equal to %s', same, L)
        return nt, ['dim%d' % len(dirs)]

    if sub == 'algebra':
        M = P(build(c['M']), dirs=dirs)
        k, op = c['k'], c['op']
        ks = S(str(k)) if k == '1/3' else k
        lg, mg = act(c['L'], g), act(c['M'], g)
        if op == '+':
            r, want = L + M, lg + mg
        elif op == '-':
            r, want = L - M, lg - mg
        elif op == '+e':
            r, want = L + build(c['M']), lg + mg
        elif op == '-e':
            r, want = L - build(c['M']), lg - mg
        elif op == 'sum':
            r, want = L + 0 + M, lg + mg
        elif op == 'neg':
            r, want = -L, -lg
        elif op == '*':
            r, want = L*hm.Function(c['h'], dirs=dirs), h*lg
        elif op == 'r*':
            r, want = c['h']*L if c['h'] != '1' else L*c['h'], h*lg
        elif op == '*k':
            r, want = (k*L if k != '1/3' else L*k), ks*lg
        elif op == 'comp':
            r, want = L(M), act(c['L'], mg)
        else:
            r, want = L(build(c['M'])), act(c['L'], mg)
        if not isinstance(r, P):
            fail('%s: the result is a %s', op, type(r))
        if r.sym == 0:
            close('null operator', value(want, dirs, pts),
                  np.zeros(len(pts)), 1e-9)
        else:
            cmp(op, r(hm.Function(c['g'], dirs=dirs)), want)
        other = P(sympy.Function('f')(hm.Function.x_sub[
            [d for d in range(5) if d not in dirs][0]]))
        raises(lambda: L + other, ValueError)
        raises(lambda: L - other, ValueError)
        raises(lambda: L*hm.Function(1, dirs=other.dirs), ValueError)
        u, v = sympy.Function('u'), sympy.Function('v')
        raises(lambda: P(u(*var) + v(*var)), TypeError)
        raises(lambda: P(0), ValueError)
        return nt, [op]

    if sub == 'map':
        if not c['h'].replace('1', ''):
            h = sympy.exp(-var[0]**2/8)
        if any('**%d)' % k in c['h'] or 'sin' in c['h'] for k in range(7)):
            h = h*0 + sympy.exp(sum(var)/3)      # a factor has no zeros
        for fac in (h, hm.Function(h, dirs=dirs)):
            r = L.map(fac)
            if not isinstance(r, P):
                fail('map gives a %s', type(r))
            cmp('mapped operator', r(hm.Function(c['g'], dirs=dirs)),
                act(c['L'], h*g)/h)
        raises(lambda: L.map(hm.Function(1, dirs=[
            [d for d in range(5) if d not in dirs][0]])), ValueError)
        return nt, ['dim%d' % len(dirs)]

    sp = L.split()
    for a, f in sp.items():
        if f.dirs != dirs or len(a) != len(dirs):
            fail('split has %s: %s', a, f)
    for a in set(sp) | {tuple(map(int, k.split(','))) for k in c['L']}:
        want = S(c['L'].get(','.join(map(str, a)), '0'))
        got = sp[a].sym if a in sp else sympy.Integer(0)
        w = value(want, dirs, pts)
        sc = sum(np.abs(value(t, dirs, pts)) for t in
                 sympy.Add.make_args(sympy.expand(want)))
        close('coefficient of %s' % (a,), value(got, dirs, pts), w,
              1e-12*sc + 1e-30)
    if any(f.sym == 0 for f in sp.values()):
        fail('null terms in the split')
    high = L + P(build({','.join(['6'] + ['0']*(len(dirs) - 1)): '1'}),
                 dirs=dirs)
    raises(high.split, ValueError)
    return nt and len(sp) > 1, ['%d terms' % min(len(sp), 4)]
