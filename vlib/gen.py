"""Hypothesis strategies shared by the properties; cases are plain JSON."""
from hypothesis import strategies as st

SETS = ['triangle', 'cross', 'cross_nc', 'cube', 'rectangle']


def num(lo=-3, hi=3, den=8):
    """Simple numbers, often small fractions, that shrink to 0."""
    return st.one_of(
        st.integers(int(lo), int(hi)).map(float),
        st.integers(int(lo*den), int(hi*den)).map(lambda k: k/den),
        st.floats(lo, hi, allow_subnormal=False).map(lambda f: round(f, 6)))


def pos(lo=.125, hi=4):
    return st.one_of(st.sampled_from([1., .5, 2., .25]),
                     st.integers(int(lo*8), int(hi*8)).map(lambda k: k/8),
                     st.floats(lo, hi).map(lambda f: round(f, 6)))


# see api.magnitudes
MODES = st.sampled_from([0, 0, 1, 1, 2, 3, 4])


def dirs_of(dim, top=5):
    """Sorted lists of dim different directions, often not the first ones."""
    return st.one_of(
        st.just(list(range(dim))),
        st.sets(st.integers(0, top - 1), min_size=dim, max_size=dim).map(
            sorted))


def vec(n, elem=None):
    return st.lists(elem if elem is not None else num(),
                    min_size=n, max_size=n)


@st.composite
def cov_of(draw, dim, diag=None, scales=False):
    """A positive definite matrix: diagonal, or F F^T with F lower unit.

    With scales, the variables are now and then in units that are small or
    large, all of them or one by one.
    """
    if scales:
        c = draw(cov_of(dim, diag))
        how = draw(st.sampled_from(['no', 'all', 'each']))
        if how == 'no':
            return c
        unit = st.integers(-14, 12).map(lambda k: 10**(k/4))
        s = [draw(unit)]*dim if how == 'all' else draw(vec(dim, unit))
        return [[c[i][j]*s[i]*s[j] for j in range(dim)] for i in range(dim)]
    if diag is None:
        diag = dim == 1 or draw(st.booleans())
    d = draw(vec(dim, pos()))
    if diag:
        return [[d[i] if i == j else 0. for j in range(dim)]
                for i in range(dim)]
    low = [[draw(st.sampled_from([0., .5, -.5, .25, -1., .75]))
            if j < i else (1. if i == j else 0.) for j in range(dim)]
           for i in range(dim)]
    c = [[sum(low[i][k]*d[k]*low[j][k] for k in range(dim))
          for j in range(dim)] for i in range(dim)]
    return [[(c[i][j] + c[j][i])/2 for j in range(dim)] for i in range(dim)]


FACTORS1 = ['1', '2', 'exp(-{x}**2/4)', 'exp({x}/2)', 'exp(-{x}**2/8 + {x}/4)',
            '1/sqrt(exp({x}**2/2))', 'exp(-{x}**4/64)', '-exp({x}/4)']


@st.composite
def factor_of(draw, dirs, zoo=FACTORS1):
    """A product of 1-D factors of the given directions."""
    if draw(st.booleans()):
        return '1'
    parts = []
    for d in dirs:
        f = draw(st.sampled_from(zoo))
        if f != '1':
            parts.append('(' + f.replace('{x}', 'x%d' % d) + ')')
    return '*'.join(parts) or '1'


@st.composite
def quad_of(draw, dims=(1, 2, 3), n=(1, 8), kinds=('gauss', 'fourier',
            'mixed', 'newton'), factor=False, diag=None, max_pts=4096,
            scales=False):
    """{"kind", "dirs", "types", "n", "mean", "cov", "factor"}"""
    dim = draw(st.sampled_from(list(dims)))
    kind = draw(st.sampled_from([k for k in kinds
                                 if k != 'mixed' or dim > 1] or ['gauss']))
    dirs = draw(dirs_of(dim))
    top = n[1]
    while top > n[0] and top**dim > max_pts:
        top -= 1
    npts = draw(st.integers(n[0], top))
    if kind in ('gauss', 'newton'):
        types = ['hermite']*dim
        if kind == 'newton':
            npts = max(npts, 2)
    elif kind == 'fourier':
        types = ['fourier']*dim
    else:
        types = draw(st.lists(st.sampled_from(['hermite', 'fourier']),
                              min_size=dim, max_size=dim).filter(
                                  lambda t: len(set(t)) == 2))
    plain = draw(st.integers(0, 3)) == 0
    mean = [0.]*dim if plain else draw(vec(dim, num(-2, 2)))
    if plain:
        cov = [[float(i == j) for j in range(dim)] for i in range(dim)]
    else:
        dg = True if kind in ('fourier', 'mixed') else diag
        cov = draw(cov_of(dim, dg, scales))
    fac = draw(factor_of(dirs)) if factor else '1'
    return {'kind': kind, 'dirs': dirs, 'types': types, 'n': npts,
            'mean': mean, 'cov': cov, 'factor': fac}


def degree_for(dim, index_set, limit=80, top=12, low=None):
    """Degrees whose set has at most `limit` members."""
    from vlib import ref
    lo = low if low is not None else (
        1 if index_set.startswith('cross') else 0)
    ok = [d for d in range(lo, top + 1)
          if ref.size(dim, d, index_set) <= limit] or [lo]
    return st.sampled_from(ok)


def even(strategy):
    return strategy.map(lambda d: d - d % 2)


# Expressions {{{
ATOMS = ['{x}', '{x}**2', '{x}**3', 'cos({x})', 'sin(2*{x})', 'exp({x}/4)',
         'exp(-{x}**2/2)', 'tanh({x})', '1/(1 + {x}**2)', 'sqrt(1 + {x}**2)',
         '({x} + 1/2)**2']
# expand() of products of these does not couple directions
SEPARABLE = [a for a in ATOMS if '/(1 +' not in a]
POLY = ['{x}', '{x}**2', '{x}**3', '{x}**4', '({x} + 1)', '(2*{x} - 1)**2']
COUPLED = ['cos({x} - {y})', 'exp({x}*{y}/8)', 'exp(-({x}**2 + {y}**2 + '
           '{x}*{y})/4)', '({x} + {y})**2', 'sin({x}*{y})',
           '1/(1 + {x}**2 + {y}**2)']
CONSTS = ['1', '2', '-1', '1/2', '3', '-1/4', '0.1', 'pi',
          '1.23456789012345678', '-7/3']


@st.composite
def expr_of(draw, dirs, atoms=ATOMS, coupled=COUPLED, terms=3, factors=3,
            names=None):
    """The text of a sum of products of atoms in the given directions."""
    from vlib import ref
    out = []
    for _ in range(draw(st.integers(1, terms))):
        parts = [draw(st.sampled_from(CONSTS))]
        if parts == ['1']:
            parts = []
        for _ in range(draw(st.integers(0, factors))):
            two = len(dirs) > 1 and coupled and draw(st.integers(0, 3)) == 0
            a = draw(st.sampled_from(coupled if two else atoms))
            i = draw(st.integers(0, len(dirs) - 1))
            j = draw(st.integers(0, len(dirs) - 2)) if two else 0
            j = j + (j >= i)
            xyz = names if names is not None else draw(st.integers(0, 3)) == 0
            nm = (lambda d: ref.XYZ[d]) if xyz else (lambda d: 'x%d' % d)
            a = a.replace('{x}', nm(dirs[i]))
            if two:
                a = a.replace('{y}', nm(dirs[j]))
            parts.append(a)
        out.append('*'.join(p if p[:1] not in '-' else '(' + p + ')'
                            for p in parts) or '1')
    return ' + '.join(out)
# }}}
