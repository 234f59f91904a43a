"""Builds the library's objects from JSON descriptions (executor side)."""
import numpy as np

from vlib import ref
from vlib.api import hm


def position(q):
    return hm.Position(mean=q['mean'], cov=q['cov'], dirs=list(q['dirs']),
                       types=list(q['types']))


def quad(q):
    dirs, n, kind = list(q['dirs']), q['n'], q['kind']
    fac = q.get('factor', '1')
    if kind == 'gauss':
        return hm.Quad.gauss_hermite(n, dirs=dirs, mean=q['mean'],
                                     cov=q['cov'], factor=fac)
    if kind == 'newton':
        return hm.Quad.newton_cotes([n]*len(dirs), [3. + i for i in
                                                    range(len(dirs))],
                                    dirs=dirs, mean=q['mean'], cov=q['cov'],
                                    factor=fac)
    if kind == 'fourier':
        bounds = []
        for i in range(len(dirs)):
            s = np.sqrt(q['cov'][i][i])
            bounds.append((q['mean'][i] - np.pi*s, q['mean'][i] + np.pi*s))
        return hm.Quad.fourier(n, bounds=bounds, dirs=dirs, factor=fac)
    nodes, weights = [], []
    for t in q['types']:
        x, w = (ref.gauss_nodes if t == 'hermite' else ref.fourier_nodes)(n)
        nodes.append(x)
        weights.append(w)
    return hm.Quad(nodes, weights, position=position(q), factor=fac)


class Grid:
    """What the description means: points, weights, basis values."""

    def __init__(self, q, quad=None, bend=1.):
        self.q, self.types, self.dirs = q, q['types'], q['dirs']
        self.dim = len(self.dirs)
        nodes, weights = [], []
        for i, t in enumerate(self.types):
            if q['kind'] == 'newton':
                r = 3. + i
                x = np.linspace(-r, r, q['n'])
                w = np.exp(-x**2/2)/np.sqrt(2*np.pi)*2*r/(q['n'] - 1)
                w[0], w[-1] = w[0]/2, w[-1]/2
            elif t == 'hermite':
                x, w = ref.gauss_nodes(q['n'])
            else:
                x, w = ref.fourier_nodes(q['n'])
            nodes.append(x*bend)
            weights.append(w)
        self.nodes, self.weights = nodes, weights
        self.xi = ref.grid(nodes)
        self.w = ref.wgrid(weights)
        self.mean = np.array(q['mean'], float)
        cov = np.array(q['cov'], float)
        off = cov - np.diag(np.diag(cov))
        if np.abs(off).max() == 0:
            self.F = np.diag(np.sqrt(np.diag(cov)))
        else:
            # a square root of the covariance is not unique: take the
            # library's, which C21 checks
            self.F = np.array(quad.position.factor)
        self.inv = np.linalg.inv(self.F)
        if np.abs(off).max() == 0:
            self.inv = np.diag(1/np.sqrt(np.diag(cov)))
        self.x = self.mean + self.xi.dot(self.F.T)

    def value(self, expr):
        return ref.evaluate(expr, self.x, self.dirs)

    def basis(self, mi):
        return ref.basis(self.types, mi, self.xi)
