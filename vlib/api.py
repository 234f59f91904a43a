"""What a property's oracle needs in the executor."""
import os
import shutil

import numpy as np

import hermipy as hm
import hermipy.core as core
import hermipy.settings
import hermite_cpp as cpp           # noqa: F401

SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp/verif-scratch')
DEFAULTS = {'cache': False, 'cachedir': os.path.join(SCRATCH, 'cache'),
            'debug': False, 'sparse': False, 'tensorize': True,
            'trails': False}


class Violation(Exception):
    pass


def reset():
    hm.settings.clear()
    hm.settings.update(DEFAULTS)


def fresh_dir(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def close(what, got, want, tol):
    """|got - want| <= tol entrywise; tol is a number or an array."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        fail('%s: shape %s, expected %s', what, got.shape, want.shape)
    if got.size == 0:
        return
    if 'VERIF_STRICT' in os.environ and np.any(np.asarray(tol) < 0):
        fail('%s: negative tolerance', what)
    err = np.abs(got - want)
    bad = ~(err <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(
            err, nan=np.inf, posinf=np.inf), -1)), err.shape)
        t = tol if np.ndim(tol) == 0 else np.broadcast_to(tol, err.shape)[i]
        fail('%s: entry %s is %r, expected %r (tolerance %.3g)',
             what, tuple(int(k) for k in i), got[i].item(), want[i].item(),
             float(t))


def magnitudes(rng, shape, mode):
    """Factors that make data tiny, huge or of very different sizes."""
    if mode == 0:
        return np.ones(shape)
    if mode == 1:
        return 10.**rng.uniform(-13, 9, shape)
    return np.full(shape, [1e-15, 1e13, 1e-90][mode - 2])


def raises(fn, *kinds):
    """fn must end with an ordinary Python exception."""
    try:
        r = fn()
    except Exception as e:
        if kinds and not isinstance(e, kinds):
            fail('raised %s (%s) instead of %s', type(e).__name__, e,
                 '/'.join(k.__name__ for k in kinds))
        return e
    fail('accepted invalid arguments, returned %r', str(r)[:200])
