"""Symbolic functions keep their values under every operation."""
RULE = ('random expressions in random directions (x, y, z or x0, x1, x2 '
        'names), combined by random trees of operations; values of the '
        'results at random points against numpy; splits multiplied and '
        'summed again; non-trivial when an operation took part and the '
        'function is not constant')
ROUND = {'tree': 40, 'split': 40, 'project': 40, 'tensor': 40, 'names': 40,
         'sanitize': 40, 'ccode': 40, 'floats': 40}
QUICK_S = 22


def points(n):
    from hypothesis import strategies as st
    from vlib import gen
    return st.lists(gen.vec(n, gen.num(-2, 2)), min_size=2, max_size=3)


def s_tree():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
        dirs = draw(gen.dirs_of(dim))
        leaves = [draw(gen.expr_of(dirs, terms=2, factors=2))
                  for _ in range(draw(st.integers(1, 3)))]
        ops = []
        for k in range(draw(st.integers(1, 4))):
            ops.append([draw(st.sampled_from(['+', '*', '/', 'c+', '+c', 'c*',
                                              '*c', '/c', 'copy', '+s',
                                              '*s'])),
                        draw(st.integers(0, len(leaves) + k - 1)),
                        draw(st.integers(0, len(leaves) + k - 1)),
                        draw(st.sampled_from([2, -1, .5, 3.25, 7, '1/3']))])
        return {'dirs': dirs, 'leaves': leaves, 'ops': ops,
                'pts': draw(points(dim)), 'wrong': draw(st.booleans())}
    return case()


def s_fun(terms=3, coupled=True, dims=(1, 2, 3)):
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from(list(dims)))
        dirs = draw(gen.dirs_of(dim))
        e = draw(gen.expr_of(dirs, terms=terms, factors=4, atoms=gen.ATOMS
                             if coupled else gen.SEPARABLE,
                             coupled=gen.COUPLED if coupled else []))
        return {'dirs': dirs, 'expr': e, 'pts': draw(points(dim)),
                'mask': draw(st.integers(0, 2**dim - 1)),
                'legacy': draw(st.booleans()),
                'k': draw(st.integers(0, 3))}
    return case()


def s_tensor():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 5))
        dirs = draw(gen.dirs_of(dim))
        n = draw(st.integers(1, dim))
        owner = [draw(st.integers(0, n - 1)) for _ in dirs]
        blocks = [[d for d, o in zip(dirs, owner) if o == b]
                  for b in range(n)]
        blocks = [b for b in blocks if b]
        return {'dirs': dirs, 'blocks': blocks,
                'exprs': [draw(gen.expr_of(b, terms=2, factors=2))
                          for b in blocks],
                'pts': draw(points(dim)), 'overlap': draw(st.integers(0, 3))}
    return case()


def s_floats():
    """Polynomials whose coefficients are floats of all magnitudes."""
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 2))
        exps = draw(st.lists(st.lists(st.integers(0, 4), min_size=dim,
                                      max_size=dim).map(tuple), min_size=1,
                             max_size=5, unique=True))
        terms = []
        for e in exps:
            terms.append([draw(st.sampled_from([-1, 1]))*draw(st.floats(
                1, 9.99))*10.**draw(st.integers(-9, 5)), list(e)])
        return {'dirs': list(range(dim)), 'terms': terms, 'pts': [],
                'denom': draw(st.sampled_from([None, None, 10**4, 10**11]))}
    return case()


def s_sanitize():
    from hypothesis import strategies as st
    from vlib import gen

    @st.composite
    def case(draw):
        dim = draw(st.integers(1, 2))
        dirs = list(range(dim))
        terms = []
        for _ in range(draw(st.integers(1, 4))):
            co = draw(st.one_of(st.floats(-5, 5).map(lambda f: round(f, 10)),
                                st.sampled_from([1e-15, -3e-16, .1, 1/3., 2.,
                                                 1e-9, .123456789])))
            rest = draw(gen.expr_of(dirs, terms=1, factors=2))
            terms.append([co, rest])
        return {'dirs': dirs, 'terms': terms, 'pts': draw(points(dim))}
    return case()


def s_many():
    return s_fun(dims=(1, 2, 2, 3, 3, 4, 5))


SUBS = {'tree': (s_tree, 3), 'split': (s_many, 3), 'ccode': (s_many, 2),
        'project': (lambda: s_fun(1, False, (2, 3, 4, 5)), 2),
        'names': (s_many, 2),
        'tensor': (s_tensor, 2), 'sanitize': (s_sanitize, 1),
        'floats': (s_floats, 1)}


def value(sym, dirs, pts):
    """Values of a sympy expression in the variables x<d>."""
    import sympy
    import numpy as np
    var = [sympy.Symbol('x%d' % d, real=True) for d in dirs]
    extra = sympy.sympify(sym).free_symbols - set(var)
    if extra:
        from vlib.api import fail
        fail('unexpected symbols %s', extra)
    f = sympy.lambdify(var, sym, 'numpy')
    x = np.array(pts, float)
    with np.errstate(all='ignore'):
        v = f(*[x[:, i] for i in range(len(dirs))])
    return np.broadcast_to(np.asarray(v, float), (len(x),)).copy()


def precise(sym, dirs, pts):
    """Values with 60 digits, and what rounded coefficients can change."""
    import mpmath
    import sympy
    import numpy as np
    var = [sympy.Symbol('x%d' % d, real=True) for d in dirs]
    floats = sorted(sympy.sympify(sym).atoms(sympy.Float))
    names = sympy.symbols('c0:%d' % len(floats), real=True)
    f = sympy.lambdify(var + list(names),
                       sympy.sympify(sym).xreplace(dict(zip(floats, names))),
                       'mpmath')
    out, err = [], []
    with mpmath.workdps(60):
        for p in np.asarray(pts, float).tolist():
            p = [mpmath.mpf(e) for e in p]
            co = [mpmath.mpf(e) for e in floats]
            try:
                v = f(*p, *co)
                e = sum(abs(f(*p, *(co[:i] + [co[i]*(1 + mpmath.mpf(1e-15))] +
                                    co[i + 1:])) - v) for i in range(len(co)))
                out.append(float(v))
                err.append(float(e))
            except (ZeroDivisionError, TypeError, OverflowError):
                out.append(np.nan)
                err.append(np.inf)
    return np.array(out), np.array(err)


def check(sub, c):
    import numpy as np
    import sympy
    from vlib import ref
    from vlib.api import hm, close, fail, raises
    F = hm.Function
    dirs, pts = c['dirs'], np.array(c['pts'], float)

    def tol(*vals):
        return 1e-12*(1 + sum(np.abs(v) for v in vals)) + \
            1e-14*np.abs(pts).max()**8

    def cmp(what, fun, want, *scale):
        ok = np.isfinite(want) & (np.abs(want) < 1e7)
        got = value(fun.sym, fun.dirs, pts[:, [dirs.index(d)
                                               for d in fun.dirs]])
        lim = tol(want, *scale)
        if not (np.abs(got - want) <= lim)[ok].all():
            # the terms of an expanded quotient can cancel: the rounding of
            # doubles is not the library's
            got, err = precise(fun.sym, fun.dirs, pts[:, [
                dirs.index(d) for d in fun.dirs]])
            ok = ok & np.isfinite(err)
            lim = lim + 20*err
        close(what, got[ok], want[ok], lim[ok])

    if sub == 'tree':
        objs = [F(e, dirs=list(dirs)) for e in c['leaves']]
        vals = [ref.evaluate(e, pts, dirs) for e in c['leaves']]
        big = [np.abs(v) for v in vals]
        for f, v in zip(objs, vals):
            cmp('leaf', f, v)
        used = []
        for op, i, j, k in c['ops']:
            kv = 1/3. if k == '1/3' else k
            a, b, va, vb = objs[i], objs[j], vals[i], vals[j]
            with np.errstate(all='ignore'):
                if op == '/' and b.sym == 0:
                    op = '+'
                r, v = {
                    '+': lambda: (a + b, va + vb),
                    '*': lambda: (a*b, va*vb),
                    '/': lambda: (a/b, va/vb),
                    'c+': lambda: (k + a, kv + va) if k != '1/3' else
                    (a + k, va + kv),
                    '+c': lambda: (a + k, va + kv),
                    'c*': lambda: (k*a, kv*va) if k != '1/3' else
                    (a*k, va*kv),
                    '*c': lambda: (a*k, va*kv),
                    '/c': lambda: (a/k, va/kv),
                    '+s': lambda: (a + c['leaves'][0], va + vals[0]),
                    '*s': lambda: (a*c['leaves'][0], va*vals[0]),
                    'copy': lambda: (F(a), va)}[op]()
                sc = (big[i]*big[j] + big[i] + big[j])*(
                    1/np.abs(vb) + 1 if op == '/' else 1)
            if not isinstance(r, F) or r.dirs != dirs:
                fail('%s: the result is %r', op, r)
            if op == '/' and not (np.abs(vb) > 1e-3).all():
                # a quotient may be simplified at a zero of the divisor
                objs.append(a)
                vals.append(va)
                big.append(big[i])
                continue
            cmp(op, r, v, np.where(np.isfinite(sc), sc, 0))
            objs.append(r)
            vals.append(v)
            big.append(np.maximum(np.abs(v), np.where(np.isfinite(sc), sc,
                                                      0)))
            used.append(op)
        if c['wrong']:
            other = F(1, dirs=[d for d in range(5) if d not in dirs][:1])
            for op in ('__add__', '__mul__', '__truediv__'):
                raises(lambda: getattr(objs[-1], op)(other), ValueError)
        return bool(used) and len(c['leaves'][0]) > 4, used

    if sub == 'tensor':
        fs = [F(e, dirs=b) for e, b in zip(c['exprs'], c['blocks'])]
        want = np.ones(len(pts))
        sc = np.ones(len(pts))
        for e in c['exprs']:
            v = ref.evaluate(e, pts, dirs)
            want, sc = want*v, sc*(1 + np.abs(v))
        for order in (fs, fs[::-1]):
            r = F.tensorize(order)
            if r.dirs != dirs:
                fail('directions %s', r.dirs)
            cmp('tensor product', r, want, sc)
        if c['overlap'] == 0:
            raises(lambda: F.tensorize(fs + [fs[0]]), ValueError)
        return len(fs) > 1, ['%d blocks' % len(fs)]

    if sub == 'floats':
        from fractions import Fraction
        x = [sympy.Symbol('x%d' % d, real=True) for d in dirs]
        expr, mons = sympy.Integer(0), []
        for co, e in c['terms']:
            mons.append(sympy.Mul(*[v**k for v, k in zip(x, e)]))
            expr = expr + sympy.Float(co)*mons[-1]
        got = F.sanitize(expr) if c['denom'] is None else \
            F.sanitize(expr, max_denom=c['denom'])
        n = c['denom'] or 10**8
        poly = sympy.Poly(got, *x)
        if not set(poly.monoms()) <= {tuple(e) for _, e in c['terms']} | {
                (0,)*len(x)}:
            fail('sanitize(%s) has other monomials: %s', expr, got)
        for (co, e), m in zip(c['terms'], mons):
            r = poly.coeff_monomial(m)
            if not r.is_Rational:
                fail('sanitize(%s) leaves the coefficient %r', expr, r)
            d = abs(Fraction(int(r.p), int(r.q)) - Fraction(co))
            # a best approximation by a fraction with denominator <= n
            if r.q > n or d > max(Fraction(1, n)*abs(Fraction(co))*2,
                                  0 if abs(co) > 2/n else Fraction(1, n)):
                fail('sanitize turned the coefficient %r into %s (largest '
                     'denominator %d)', co, r, n)
        return True, ['floats']

    if sub == 'sanitize':
        x = [sympy.Symbol('x%d' % d, real=True) for d in dirs]
        expr, want, err = sympy.Integer(0), np.zeros(len(pts)), 0
        for co, rest in c['terms']:
            e = F(rest, dirs=dirs).sym
            expr = expr + sympy.Float(co)*e
            v = ref.evaluate(rest, pts, dirs)
            want = want + co*v
            err = err + np.abs(v)
        got = F.sanitize(expr)
        for t in sympy.Add.make_args(got):
            for m in sympy.Mul.make_args(t):
                if isinstance(m, sympy.Float):
                    fail('sanitize leaves the float %s', m)
        # each coefficient moves by 1e-8 at most; expansion can split terms
        close('sanitize', value(got, dirs, pts), want,
              2e-8*(1 + 40*err + np.abs(pts).max()**8))
        again = F.sanitize(got)
        if again != got and sympy.simplify(again - got) != 0:
            fail('sanitize is not idempotent: %s, %s', got, again)
        return len(c['terms']) > 1 and bool(x), ['%d terms' % len(
            c['terms'])]

    f = F(c['expr'], dirs=list(dirs))
    want = ref.evaluate(c['expr'], pts, dirs)
    cmp('value', f, want)

    if sub == 'ccode':
        text = f.ccode()
        ns = {'exp': np.exp, 'pow': np.power, 'sqrt': np.sqrt,
              'cos': np.cos, 'sin': np.sin, 'tanh': np.tanh,
              'fabs': np.abs, 'log': np.log, 'M_PI': np.pi, 'M_E': np.e,
              'M_SQRT2': 2**.5, 'M_1_PI': 1/np.pi, 'M_SQRT1_2': .5**.5,
              'M_PI_2': np.pi/2, 'M_PI_4': np.pi/4, 'M_2_PI': 2/np.pi,
              'v': [pts[:, i] for i in range(len(dirs))]}
        with np.errstate(all='ignore'):
            got = np.broadcast_to(eval(text, {'__builtins__': {}}, ns),
                                  (len(pts),))
        close('C code %s' % text, np.array(got, float), want, tol(want))
        return len(set(want)) > 1, ['dim%d' % len(dirs)]

    if sub == 'names':
        x5, s5 = F.xyz, F.x_sub
        k = c['k']
        if k == 0:
            g = F(f.as_xyz(), dirs=dirs)
            if any(str(s) not in [ref.XYZ[d] for d in dirs]
                   for s in f.as_xyz().free_symbols):
                fail('as_xyz gives %s', f.as_xyz())
        elif k == 1:
            g = F(str(f.sym), dirs=dirs)
        elif k == 2:
            # symbols without assumptions, as users define them
            e = f.sym
            for s, n in zip(s5, ref.XYZ):
                e = e.subs(s, sympy.Symbol(n))
            g = F(e, dirs=dirs)
        else:
            g = F(f.sym.subs(list(zip(s5, x5))), dirs=dirs)
        cmp('other names', g, want)
        if g.dirs != f.dirs:
            fail('directions %s, %s', g.dirs, f.dirs)
        if k == 3 and g != f:
            fail('%s is not equal to %s', g, f)
        # without directions: the smallest consecutive ones
        h = F(c['expr'])
        top = max([s5.index(v) for v in h.sym.free_symbols], default=-1)
        if not set(range(top + 1)) <= set(h.dirs) or \
                h.dirs != list(range(len(h.dirs))):
            fail('directions %s of %s', h.dirs, c['expr'])
        if F(c['expr'], dim=5).dirs != [0, 1, 2, 3, 4]:
            fail('dim is ignored')
        missing = [d for d in dirs if s5[d] in f.sym.free_symbols][:1]
        if missing:
            rest = [d for d in range(5) if d not in missing]
            raises(lambda: F(c['expr'], dirs=rest))
        if len(dirs) > 1:
            raises(lambda: F(c['expr'], dirs=dirs[::-1]), ValueError)
        return len(f.sym.free_symbols) > 0, ['names %d' % k]

    if sub == 'split':
        # once more with one direction more, and as before
        more = [d for d in range(5) if d not in dirs][:1]
        base, all_pts = list(dirs), pts
        for dirs in (base, sorted(base + more), base):
            f = F(c['expr'], dirs=list(dirs))
            pts = np.stack([all_pts[:, base.index(d)] if d in base
                            else np.ones(len(all_pts)) for d in dirs], 1)
            total, scale = np.zeros(len(pts)), np.zeros(len(pts))
            terms = f.split(legacy=c['legacy'])
            coupled = False
            for t in terms:
                prod = np.ones(len(pts))
                if c['legacy']:
                    *funs, mult = t
                    if value(mult, [], pts[:, :0]).size != len(pts):
                        fail('multiplier %s', mult)
                    prod = prod*value(mult, [], pts[:, :0])
                    if len(funs) == len(dirs) and \
                            [g.dirs for g in funs] == [[d] for d in dirs]:
                        pass
                    elif len(funs) == 1 and funs[0].dirs == dirs:
                        coupled = True
                    else:
                        fail('split has parts in %s', [g.dirs for g in funs])
                    parts = funs
                else:
                    keys = [k for k in t if k]
                    if sorted(d for k in keys for d in k) != dirs:
                        fail('the parts %s do not partition %s', keys, dirs)
                    if frozenset() not in t:
                        fail('no constant in the split')
                    for k, g in t.items():
                        if sorted(k) != g.dirs:
                            fail('part %s has directions %s', k, g.dirs)
                        coupled = coupled or len(k) > 1
                    parts = [t[k] for k in keys]
                    prod = prod*value(t[frozenset()].sym, [], pts[:, :0])
                for g in parts:
                    with np.errstate(all='ignore'):
                        prod = prod*value(g.sym, g.dirs, pts[
                            :, [dirs.index(d) for d in g.dirs]])
                total, scale = total + prod, scale + np.abs(prod)
            ok = np.isfinite(scale) & np.isfinite(want)
            close('sum of the split', total[ok], want[ok],
                  (tol(want) + 1e-12*scale)[ok])
        return len(terms) > 1 or coupled, [
            'legacy' if c['legacy'] else 'sets', '%d terms' % min(
                len(terms), 4), 'coupled' if coupled else 'separable']

    # project
    ind = [i for i in range(len(dirs)) if c['mask'] >> i & 1]
    rest = [i for i in range(len(dirs)) if i not in ind]
    if not ind or not rest:
        whole = f.project(list(dirs)) if len(f.split(legacy=False)) == 1 \
            else f
        cmp('projection on all directions', whole, want)
        return False, ['all']
    D = [dirs[i] for i in ind]
    E = [dirs[i] for i in rest]
    if len(f.split(legacy=False)) != 1:
        raises(lambda: f.project(D), ValueError)
        return False, ['sum']
    a, b = f.project(D), f.project(E)
    if a.dirs != D or b.dirs != E:
        fail('directions of projections: %s %s', a.dirs, b.dirs)
    with np.errstate(all='ignore'):
        prod = value(a.sym, D, pts[:, ind])*value(b.sym, E, pts[:, rest])
    ok = np.isfinite(want)
    close('product of the projections', prod[ok], want[ok], tol(want)[ok])
    one = b if dirs[0] in D else a
    # the constant goes with the lowest direction
    for t in one.split(legacy=False):
        k = t[frozenset()].sym
        if k != 1:
            fail('a constant %s was left in the projection', k)
    if len(ind) == 1 and f.project(D[0]) != a:
        fail('project(d) and project([d]) differ')
    # coupled in these directions: refused
    cp = F('cos(x%d - x%d)' % (D[0], E[0]), dirs=sorted([D[0], E[0]]))
    raises(lambda: cp.project([D[0]]), ValueError)
    return len(f.sym.free_symbols) > 1, ['projected']
