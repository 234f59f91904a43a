"""The library of equations: generators, fluxes, Gaussian solutions."""
RULE = ('every equation of hermipy.equations with random rational '
        'parameters and potentials, applied to random functions at random '
        'points, against the generator written out from the stochastic '
        'differential equation (drift and diffusion); fluxes against '
        'drift*f - diffusion*grad f; Gibbs densities are invariant; '
        'map_operator against the definition; solve_gaussian against the '
        'equation and the normalization; the effective noise against '
        'quadrature of the closed form; all non-trivial')
ASSUMPTIONS = ['Gaussian solutions are asked for where one exists (stable '
               'linear drift); confining potentials for the noise']
ROUND = {'op': 40, 'gauss1': 10, 'gauss2': 5, 'gauss3': 2, 'noise': 6,
         'map': 15}
QUICK_S = 28

KINDS = ['fp', 'mvw', 'mv', 'mvh', 'over', 'lang_f', 'lang_b', 'gle1',
         'gle2', 'gle0']
POT = ['x**2/2', 'x**4/4 - x**2/2', 'x**4/4', 'cos(x)', 'x**2', '0',
       'x**3 - 2*x', 'exp(x)']


def rat(st, lo=1, hi=12, den=4):
    return st.integers(lo, hi).map(lambda k: '%d/%d' % (k, den))


def s_op():
    from hypothesis import strategies as st
    from vlib import gen
    return st.fixed_dictionaries({
        'eq': st.sampled_from(KINDS), 'V': st.sampled_from(POT),
        'symbolic': st.booleans(),
        'a': st.lists(rat(st), min_size=8, max_size=8),
        'b': st.lists(rat(st, -8, 8), min_size=6, max_size=6),
        'f': st.lists(st.tuples(st.integers(0, 3), rat(st, -4, 4)),
                      min_size=4, max_size=4),
        'pt': st.lists(rat(st, -6, 6), min_size=4, max_size=4)})


def s_map():
    from hypothesis import strategies as st
    return s_op().flatmap(lambda c: st.sampled_from(
        ['exp(-x**2/4)', 'exp(x/2)', 'exp(-x**4/8 + x)', 'sqrt(exp(-x**2))']
    ).map(lambda h: dict(c, fac=h)))


def s_gauss(dim):
    def f():
        from hypothesis import strategies as st
        n = dim*(dim - 1)//2
        return st.fixed_dictionaries({
            'cov': st.lists(rat(st, 1, 8, 2), min_size=dim, max_size=dim),
            'low': st.lists(rat(st, -2, 2, 2), min_size=n, max_size=n),
            'dif': st.lists(rat(st, 1, 6, 2), min_size=dim, max_size=dim),
            'anti': st.lists(rat(st, -4, 4, 2), min_size=n, max_size=n)})
    return f


def s_noise():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'k': rat(st, 2, 8), 'q': rat(st, 0, 4, 4), 'c': rat(st, -2, 2, 4),
        'beta': rat(st)})


def s_gauss3():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'k': rat(st, 1, 8, 2), 'β': rat(st), 'γ': rat(st, 0, 6, 4),
        'ε': rat(st, 1, 4, 4), 'θ': rat(st, 0, 4, 2)})


SUBS = {'op': (s_op, 5), 'map': (s_map, 2), 'gauss1': (s_gauss(1), 1),
        'gauss2': (s_gauss(2), 2), 'gauss3': (s_gauss3, 2),
        'noise': (s_noise, 2)}


def fixed(tier):
    """Every equation once, and with the symbols of the class."""
    gen = {'a': ['5/4', '3/4', '7/4', '2/4', '9/4', '1/4', '3/4', '5/4'],
           'b': ['3/4', '-5/4', '2/4', '-1/4', '7/4', '-3/4'],
           'f': [[1, '-3/4'], [2, '1/4'], [1, '-2/4'], [3, '1/4']],
           'pt': ['3/4', '-5/4', '2/4', '7/4']}
    return [('op', dict(gen, eq=k, symbolic=s, V=v)) for k in KINDS
            for s, v in ((False, 'x**3 - 2*x'),
                         (True, 'x**4/4 - x**2/2'))]


def spec(c):
    """Class, forward?, parameters, variables, drift, diffusion."""
    import sympy
    R = sympy.Rational
    x, y, z, w = sympy.symbols('x y z w', real=True)
    V = sympy.sympify(c['V'], locals={'x': x})
    a, b = [R(k) for k in c['a']], [R(k) for k in c['b']]
    kind = c['eq']
    B, G, E = a[0], a[1], a[2]
    th, m = b[0], b[1]
    if kind == 'fp':
        return [x], {'β': B, 'Vp': V}, [-V.diff(x)], [[1/B]]
    if kind == 'mvw':
        return [x], {'β': B, 'θ': th, 'm': m, 'Vp': V}, \
            [-V.diff(x) - th*(x - m)], [[1/B]]
    if kind == 'mv':
        # the general parameters: the noise of the quadratic potential
        k = sympy.Function('Vy')(y)
        return [x, y], {'β': B, 'γ': G, 'ε': E, 'θ': th, 'm': m, 'Vp': V,
                        'Vy': k}, \
            [-V.diff(x) - th*(x - m) + (1 - G)*y/(sympy.sqrt(B)*E),
             -k.diff(y)/E**2], [[G**2/B, 0], [0, 1/E**2]]
    if kind == 'mvh':
        return [x, y, z], {'β': B, 'γ': G, 'ε': E, 'θ': th, 'm': m,
                           'Vp': V}, \
            [-V.diff(x) - th*(x - m) + (1 - G)*z/(sympy.sqrt(B)*E),
             -(z + y)/E**2, y/E**2], \
            [[G**2/B, 0, 0], [0, 1/E**2, 0], [0, 0, 0]]
    if kind == 'over':
        return [x], {'β': B, 'V': V}, [-V.diff(x)], [[1/B]]
    if kind == 'lang_f':
        if c['b'][5][:1] == '-':        # any real number
            G = -G
        return [x, y], G, [-y - G*x, x], [[G, 0], [0, 0]]
    if kind == 'lang_b':
        U = V.subs(x, y)
        return [x, y], {'γ': G, 'β': B, 'Vy': U}, \
            [-U.diff(y) - G*x, x], [[G/B, 0], [0, 0]]
    if kind == 'gle0':
        return [x, y], {'γ': G, 'β': B, 'Vx': V}, \
            [y, -V.diff(x) - G*y], [[0, 0], [0, G/B]]
    if kind == 'gle1':
        return [x, y, z], {'β': B, 'λ': G, 'α': E, 'Vx': V}, \
            [y, -V.diff(x) + G*z, -G*y - E*z], \
            [[0]*3, [0]*3, [0, 0, E/B]]
    A = [[a[3] + 4, b[2]], [b[3], a[4] + 4]]
    return [x, y, z, w], {'β': B, 'λ1': G, 'λ2': E, 'A11': A[0][0],
                          'A12': A[0][1], 'A21': A[1][0], 'A22': A[1][1],
                          'Vx': V}, \
        [y, -V.diff(x) + G*z + E*w, -G*y - A[0][0]*z - A[0][1]*w,
         -E*y - A[1][0]*z - A[1][1]*w], \
        [[0]*4, [0]*4, [0, 0, A[0][0]/B, (A[0][1] + A[1][0])/2/B],
         [0, 0, (A[0][1] + A[1][0])/2/B, A[1][1]/B]]


def classes():
    import hermipy.equations as eq
    L, G = eq.Langevin, eq.Generalized_Langevin
    return {'fp': (eq.Fokker_Planck_1d, 'equation', 'f'),
            'mvw': (eq.McKean_Vlasov_white, 'equation', 'f'),
            'mv': (eq.McKean_Vlasov, 'equation', 'f'),
            'mvh': (eq.McKean_Vlasov_harmonic_noise, 'equation', 'f'),
            'over': (eq.Overdamped, 'backward', 'f'),
            'lang_f': (L, 'forward', 'f'), 'lang_b': (L, 'backward', 'f'),
            'gle0': (G, 'backward', 'fL'), 'gle1': (G, 'backward', 'f1'),
            'gle2': (G, 'backward', 'f2')}


def check(sub, c):
    import sympy
    import hermipy.equations as eq
    from vlib.api import fail
    if sub == 'gauss3':
        return gauss3(c)
    if sub.startswith('gauss'):
        return gauss(int(sub[-1]), c)
    if sub == 'noise':
        return noise(c)
    R = sympy.Rational
    kind = c['eq']
    cls, method, name = classes()[kind]
    var, params, drift, dif = spec(c)
    f = getattr(cls, name)
    if list(f.args) != var:
        fail('%s: the unknown is %s', cls.__name__, f)
    pt = {v: R(p) for v, p in zip(var, c['pt'])}
    test = sympy.Integer(1)
    for v, (k, e) in zip(var, c['f']):
        test = test*(v**k)*sympy.exp(R(e)*v/2)
    Vy = None
    if kind == 'mv':
        Vy = params['Vy']
    fill = [(Vy, var[1]**4/4 - var[1]/3)] if Vy is not None else []

    def num(e):
        e = sympy.sympify(e).subs(fill).doit()
        return complex(e.subs(pt).evalf(30))

    def same(what, got, want):
        g, w = num(got), num(want)
        if not abs(g - w) <= 1e-10*(1 + abs(w)):
            fail('%s of %s: %r, expected %r', what, cls.__name__, g, w)

    if c['symbolic'] and hasattr(cls, 'params'):
        args = ({'gle1': (1,), 'gle2': (2,)}.get(kind, ()))
        if kind == 'gle0':
            op = getattr(cls, method)(params)
        else:
            sp = cls.params(*args)
            if set(sp) != set(params):
                fail('parameters of %s: %s', cls.__name__, sorted(sp))
            op = getattr(cls, method)(sp)
            op = op.subs([(sp[k], params[k]) for k in sp]).doit()
    else:
        op = getattr(cls, method)(params)

    def generator(g):
        """Backward: b . grad + D : grad grad; forward: its adjoint."""
        n = len(var)
        if method == 'backward' and kind != 'lang_f':
            return sum(drift[i]*g.diff(var[i]) for i in range(n)) + sum(
                dif[i][j]*g.diff(var[i], var[j])
                for i in range(n) for j in range(n))
        return -sum((drift[i]*g).diff(var[i]) for i in range(n)) + sum(
            (dif[i][j]*g).diff(var[i], var[j])
            for i in range(n) for j in range(n))
    if sub == 'map':
        h = sympy.sympify(c['fac'], locals={'x': var[0]})
        mapped = eq.map_operator(op, f, h)
        same('mapped operator', mapped.subs(f, test).doit(),
             generator(h*test)/h)
        return True, [kind]
    same('operator', op.subs(f, test).doit(), generator(test))
    if hasattr(cls, 'fluxes'):
        fl = cls.fluxes(params)
        fl = fl if isinstance(fl, list) else [fl]
        if len(fl) != len(var):
            fail('%d fluxes of %s', len(fl), cls.__name__)
        for i, e in enumerate(fl):
            same('flux %d' % i, e.subs(f, test).doit(),
                 drift[i]*test - sum(dif[i][j]*test.diff(var[j])
                                     for j in range(len(var))))
    if kind in ('fp', 'lang_f'):
        d = sympy.exp(-params['β']*params['Vp']) if kind == 'fp' else \
            sympy.exp(-(var[0]**2 + var[1]**2)/2)
        same('invariant density', op.subs(f, d).doit(), 0)
    return True, [kind, c['V']]


def gauss(dim, c):
    """Ornstein-Uhlenbeck process with a covariance chosen beforehand."""
    import sympy
    import hermipy.equations as eq
    from vlib.api import fail
    R = sympy.Rational
    low = sympy.eye(dim)
    anti = sympy.zeros(dim)
    k = 0
    for i in range(dim):
        for j in range(i):
            low[i, j] = R(c['low'][k])
            anti[i, j], anti[j, i] = R(c['anti'][k]), -R(c['anti'][k])
            k += 1
    cov = low*sympy.diag(*[R(v) for v in c['cov']])*low.T
    dif = sympy.diag(*[R(v) for v in c['dif']])
    prec = cov.inv()
    # drift -(D + J) C^-1 x leaves N(0, C) invariant
    mat = (dif + anti)*prec
    var = sympy.symbols('x y z', real=True)[:dim]
    f = sympy.Function('f')(*var)
    X = sympy.Matrix(var)
    b = -mat*X
    op = -sum((b[i]*f).diff(var[i]) for i in range(dim)) + sum(
        dif[i, i]*f.diff(var[i], var[i]) for i in range(dim))
    sol = eq.solve_gaussian(op, f, list(var))
    want = sympy.exp(-(X.T*prec*X)[0]/2)/sympy.sqrt(
        (2*sympy.pi)**dim*cov.det())
    for pt in ([0]*dim, [1, R(1, 2), -1][:dim], [R(-1, 3), 1, 1][:dim]):
        sub = dict(zip(var, pt))
        g = complex(sol.subs(sub).evalf(30))
        w = complex(want.subs(sub).evalf(30))
        if not abs(g - w) <= 1e-9*abs(w):
            fail('Gaussian solution at %s: %r, expected %r', pt, g, w)
    return True, ['gauss%d' % dim]


def gauss3(c):
    """The linear process with harmonic noise: Lyapunov's equation."""
    import numpy as np
    import scipy.linalg
    import sympy
    import hermipy.equations as eq
    from vlib.api import fail
    E = eq.McKean_Vlasov_harmonic_noise
    p = {n: sympy.Rational(v) for n, v in c.items()}
    op = E.equation({'β': p['β'], 'γ': p['γ'], 'ε': p['ε'], 'θ': p['θ'],
                     'm': sympy.Integer(0), 'Vp': p['k']*E.x**2/2})
    sol = eq.solve_gaussian(op, E.f, [E.x, E.y, E.z])
    k, B, G, e, th = (float(p[n]) for n in ('k', 'β', 'γ', 'ε', 'θ'))
    A = np.array([[-k - th, 0, (1 - G)/np.sqrt(B)/e],
                  [0, -1/e**2, -1/e**2], [0, 1/e**2, 0]])
    D = np.diag([G**2/B, 1/e**2, 0])
    cov = scipy.linalg.solve_continuous_lyapunov(A, -2*D)
    if np.linalg.cond(cov) > 1e7:
        return False, ['degenerate']
    prec = np.linalg.inv(cov)
    for pt in ([0, 0, 0], [1, .5, -1], [-.25, 1, 1]):
        v = np.array(pt)*np.sqrt(np.diag(cov))
        g = complex(sol.subs(list(zip(E.variables, v))).evalf(30))
        w = np.exp(-v.dot(prec).dot(v)/2)/np.sqrt(
            (2*np.pi)**3*np.linalg.det(cov))
        if not abs(g - w) <= 1e-6*abs(w):
            fail('Gaussian solution at %s: %r, expected %r', pt, g, w)
    return True, ['gauss3']


def noise(c):
    """The effective noise of McKean_Vlasov for a given potential."""
    import numpy as np
    import sympy
    from scipy.integrate import cumulative_trapezoid
    import hermipy.equations as eq
    from vlib.api import fail
    R = sympy.Rational
    M = eq.McKean_Vlasov
    k, q, s, B = (R(c[n]) for n in ('k', 'q', 'c', 'beta'))
    # centred: the potential is even
    Vy = k*M.y**2/2*(1 if q == 0 else (1 + s)) + q*M.y**4/4
    par = {'β': B, 'γ': R(1, 4), 'ε': R(1, 2), 'θ': R(0), 'm': R(0),
           'Vp': sympy.Integer(0)*M.x, 'Vy': Vy}
    fx, _ = M.fluxes(par)
    got = fx.subs(M.f, 1).doit().subs(M.y, 1).evalf()
    got = float(got)/((1 - .25)/.5)
    y = np.linspace(-13, 13, 800001)
    v = sympy.lambdify(M.y, Vy, 'numpy')(y)
    rho = np.exp(-(v - v.min()))
    h = y[1] - y[0]
    rho = rho/(rho.sum()*h)
    # L g = y,  <y, g> = int (int_y^inf s rho ds)^2/rho dy
    up = cumulative_trapezoid(y*rho, y, initial=0.)
    # from the closer end
    up = np.where(y <= 0, up, up[::-1])
    ok = rho > 1e-30
    zeta = (up[ok]**2/rho[ok]).sum()*h
    want = np.sqrt(1/float(B)/zeta)
    # the accuracy of the Hermite functions of the library
    if not abs(got - want) <= (1e-6 if q == 0 and k < 1 else 2e-8)*want:
        fail('effective noise for the potential %s: %r, expected %r', Vy,
             got, want)
    return True, ['noise']
