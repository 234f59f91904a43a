"""Reference models, written from the definitions and independent of hermipy."""
import itertools
import math

import numpy as np

SETS = ['triangle', 'cross', 'cross_nc', 'cube', 'rectangle']


# Index sets {{{
def member(m, degree, index_set):
    if index_set == 'triangle':
        return sum(m) <= degree
    if index_set == 'cube':
        return max(m) <= degree
    if index_set == 'rectangle':
        return m[0] <= degree and all(2*k <= degree for k in m[1:])
    if index_set in ('cross', 'cross_nc'):
        return math.prod(max(1, k) for k in m) <= max(degree, 1)
    raise KeyError(index_set)


def indices(dim, degree, index_set):
    """The set of multi-indices, by pruned search of the definition."""
    if index_set in ('cross', 'cross_nc'):
        degree = max(degree, 1)
    out = []

    def rec(prefix):
        if len(prefix) == dim:
            out.append(tuple(prefix))
            return
        for k in range(degree + 1):
            cand = prefix + [k]
            if not member(cand + [0]*(dim - len(cand)), degree, index_set):
                break
            rec(cand)
    rec([])
    return set(out)


def size(dim, degree, index_set):
    """The number of multi-indices, without listing them."""
    if index_set == 'triangle':
        return math.comb(dim + degree, dim)
    if index_set == 'cube':
        return (degree + 1)**dim
    if index_set == 'rectangle':
        return (degree + 1)*(degree//2 + 1)**(dim - 1)
    degree = max(degree, 1)
    counts = {1: 1}                 # product -> number of prefixes
    for _ in range(dim):
        new = {}
        for p, c in counts.items():
            for k in range(degree + 1):
                q = p*max(1, k)
                if q > degree:
                    break
                new[q] = new.get(q, 0) + c
        counts = new
    return sum(counts.values())
# }}}


# 1-D bases and their derivatives {{{
def basis1(kind, n, x):
    """Rows: the first n + 1 basis functions at the points x."""
    x = np.asarray(x, float)
    out = np.zeros((n + 1,) + x.shape)
    if kind == 'hermite':
        out[0] = 1
        if n >= 1:
            out[1] = x
        for k in range(1, n):
            out[k + 1] = (x*out[k] - math.sqrt(k)*out[k - 1])/math.sqrt(k + 1)
    else:
        out[0] = 1/math.sqrt(2*math.pi)
        for i in range(1, n + 1):
            k = (i + 1)//2
            out[i] = (np.sin(k*x) if i % 2 else np.cos(k*x))/math.sqrt(math.pi)
    return out


def dbasis1(kind, n, x, order):
    if order == 0:
        return basis1(kind, n, x)
    x = np.asarray(x, float)
    out = np.zeros((n + 1,) + x.shape)
    if kind == 'hermite':
        h = basis1(kind, n, x)
        for k in range(order, n + 1):
            c = math.sqrt(math.prod(range(k - order + 1, k + 1)))
            out[k] = c*h[k - order]
    else:
        for i in range(1, n + 1):
            k = (i + 1)//2
            phase = order*math.pi/2
            f = np.sin(k*x + phase) if i % 2 else np.cos(k*x + phase)
            out[i] = k**order*f/math.sqrt(math.pi)
    return out


def basis(types, mi, xi, order=None):
    """Rows: basis functions of multi-indices mi at the points xi (N, dim)."""
    mi = np.asarray(mi, int).reshape(-1, len(types))
    order = order or [0]*len(types)
    out = np.ones((len(mi), len(xi)))
    for d, t in enumerate(types):
        b = dbasis1(t, int(mi[:, d].max(initial=0)), xi[:, d], order[d])
        out = out*b[mi[:, d]]
    return out


def envelope(types, mi, xi):
    """What rounding errors of basis() are relative to: it has no zeros,
    where the basis functions have some (at Gauss nodes, for example)."""
    mi = np.asarray(mi, int).reshape(-1, len(types))
    out = np.ones((len(mi), len(xi)))
    for d, t in enumerate(types):
        b = basis1(t, int(mi[:, d].max(initial=0)), xi[:, d])
        out = out*np.sqrt(np.cumsum(b**2, axis=0))[mi[:, d]]
    return out


def grad_basis(types, mi, xi, inv, alpha):
    """d^alpha/dx^alpha of the basis, where xi = inv (x - mean)."""
    dim = len(types)
    terms = {tuple([0]*dim): 1.}
    for j, a in enumerate(alpha):
        for _ in range(a):
            new = {}
            for o, c in terms.items():
                for i in range(dim):
                    if inv[i][j] != 0:
                        p = list(o)
                        p[i] += 1
                        p = tuple(p)
                        new[p] = new.get(p, 0) + c*inv[i][j]
            terms = new
    out = np.zeros((len(mi), len(xi)))
    for o, c in terms.items():
        out = out + c*basis(types, mi, xi, list(o))
    return out
# }}}


# Grids {{{
def grid(arrays):
    """All combinations, last array fastest: (N, dim)."""
    g = np.meshgrid(*[np.asarray(a, float) for a in arrays], indexing='ij')
    return np.stack([a.reshape(-1) for a in g], axis=-1)


def wgrid(arrays):
    return grid(arrays).prod(axis=1)


def gauss_nodes(n):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    return x, w/math.sqrt(2*math.pi)


def fourier_nodes(n):
    return -np.pi + 2*np.pi*np.arange(n)/n, np.full(n, 2*np.pi/n)
# }}}


# Expressions {{{
NS = {'exp': np.exp, 'cos': np.cos, 'sin': np.sin, 'sqrt': np.sqrt,
      'tanh': np.tanh, 'pi': math.pi, 'log': np.log, 'Abs': np.abs,
      'abs': np.abs, 'cosh': np.cosh, 'atan': np.arctan,
      'Rational': lambda a, b: a/b}
XYZ = ['x', 'y', 'z', 'w', 'v']


def evaluate(expr, x, dirs):
    """Value of the text of an expression at the points x (N, len(dirs))."""
    ns = dict(NS)
    for i, d in enumerate(dirs):
        ns['x%d' % d] = ns[XYZ[d]] = x[:, i]
    with np.errstate(all='ignore'):
        v = eval(expr, {'__builtins__': {}}, ns)
    return np.broadcast_to(np.asarray(v, float), (len(x),)).copy()
# }}}


# Gaussian moments {{{
def moment1(mean, var, k):
    """E (mean + s Z)^k"""
    tot = 0.
    for j in range(0, k + 1, 2):
        dfact = math.prod(range(1, j, 2)) if j else 1
        tot += math.comb(k, j)*mean**(k - j)*var**(j//2)*dfact
    return tot


def moment(mean, cov, powers):
    """E prod x_i^p_i for x ~ N(mean, cov), by Isserlis' recursion."""
    memo = {}
    cov = [[float(c) for c in r] for r in cov]
    mean = [float(m) for m in mean]

    def rec(p):
        if not any(p):
            return 1.
        if p in memo:
            return memo[p]
        i = next(k for k, e in enumerate(p) if e)
        q = list(p)
        q[i] -= 1
        r = mean[i]*rec(tuple(q))
        for j, e in enumerate(q):
            if e and cov[i][j] != 0:
                s = list(q)
                s[j] -= 1
                r += cov[i][j]*e*rec(tuple(s))
        memo[p] = r
        return r
    return rec(tuple(powers))
# }}}


# Exact triple products {{{
def triple(kind, n):
    """T[i][j][k] = integral of the product of three basis functions."""
    if kind == 'hermite':
        x, w = gauss_nodes((3*n)//2 + 2)
    else:
        x, w = fourier_nodes(4*n + 8)
    b = basis1(kind, n, x)
    return np.einsum('iq,jq,kq,q->ijk', b, b, b, w)
# }}}


def downset(keys):
    """Smallest downward-closed set containing the keys."""
    out = set()
    for m in keys:
        out |= set(itertools.product(*[range(k + 1) for k in m]))
    return out
