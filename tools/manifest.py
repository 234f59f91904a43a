#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

# id: title, statement, over, quantifier, why tests can't, files,
#     mechanism [(name, where)], observed at, technique, note
P = {}


def prop(pid, title, statement, over, quant, why, files, mech, observe,
         technique, note):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant,
                  why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note)


prop('C01', 'Index sets enumerate exactly the multi-indices of their definition',
     'For every index set (triangle, cross, cross_nc, cube, rectangle), dimension and degree, the list of multi-indices contains each multi-index of the definition exactly once and nothing else, in an order in which a lower degree is a prefix of a higher one (except cross_nc). The size function, the position of a multi-index and the degree recovered from a size agree with that list. A number that is not the size of a set is refused rather than answered wrongly.',
     ['inputs'], 'every index set, every dimension 1..10, every degree up to the supported 250 with up to a million members, every multi-index, every integer offered as a size',
     'The tests enumerate a few dimensions and degrees and compare the functions with one another rather than with the definition.',
     ['cpp/src/hermite/iterators.cpp', 'cpp/src/hermite/iterators.hpp', 'hermipy/core.py'],
     [('one iterator class per index set, with closed-form sizes and binary search for degrees', 'cpp/src/hermite/iterators.cpp')],
     ['core.iterator_list_indices', 'core.iterator_size', 'core.iterator_index', 'core.iterator_get_degree'],
     'Hypothesis-generated sets against the membership definition',
     'generated dimensions/degrees plus an exhaustive sweep of small ones; oracle: pruned search of the definition')

prop('C02', 'Changing degree or index set keeps every common coefficient',
     'Truncating a series or matrix to a lower degree, extending it to a higher one, or converting it to a cross keeps each coefficient attached to its multi-index, puts zeros for the new multi-indices and drops only those outside the new set. Position and factor are kept. Where the operation is not defined (index sets whose lists are not nested) it raises.',
     ['inputs'], 'all index sets, dimensions, degrees, target degrees, dense and sparse matrices, all coefficient values',
     'The tests truncate a handful of series on the triangle only.',
     ['hermipy/series.py', 'hermipy/varf.py', 'cpp/src/hermite/iterators.cpp'],
     [('subdegree copies prefixes of nested lists; to_cross looks indices up', 'hermipy/series.py, hermipy/varf.py')],
     ['Series.subdegree', 'Series.to_cross', 'Varf.subdegree', 'Varf.to_cross'],
     'Hypothesis, coefficient-by-coefficient model',
     'dictionary model keyed by multi-index; the coefficients are compared exactly')

prop('C03', 'Transform and evaluation compute the expansion, and invert each other',
     'The coefficients a quadrature computes for a function are the weighted sums over its nodes of the function (divided by the factor) times the orthonormal Hermite or Fourier basis functions, for every mean, covariance, directions, index set and degree. Evaluating a series at the nodes of any compatible quadrature gives the sum of coefficients times basis functions times factor. On functions in the span of the basis, transform followed by evaluation is the identity when the quadrature is exact.',
     ['inputs', 'configurations'], 'every quadrature kind (Gauss-Hermite, Fourier, mixed, Newton-Cotes), dimension, direction set, mean, covariance, factor, index set, degree and function',
     'The tests transform a few functions in dimension 1 to 3, mostly on the standard position, and few check against independent basis values.',
     ['cpp/src/hermite/transform.cpp', 'hermipy/quad.py', 'hermipy/core.py', 'hermipy/series.py'],
     [('recurrences for the basis and one pass over the grid per multi-index', 'cpp/src/hermite/transform.cpp'), ('multiplication by the factor', 'hermipy/quad.py')],
     ['Quad.transform', 'Quad.eval', 'core.transform'],
     'Hypothesis, differential against an independent reference',
     'basis functions computed independently from their definition; tolerance scaled to rounding')

prop('C04', 'Integrals are the weighted sums over the nodes, exact where Gauss is',
     'Integrating a function, grid or series with a quadrature returns the weighted sum of its values at the mapped nodes; for polynomials of degree at most 2n-1 per direction it equals the Gaussian moment in closed form, for any mean and covariance. The result does not depend on whether the function was tensorized, and flat integrals divide by the density. Norms and inner products agree with the integrals that define them.',
     ['inputs', 'configurations'], 'every quadrature, dimension 1 to 4, integrand, mean, covariance, factor',
     'The tests integrate a few fixed polynomials with a few quadratures.',
     ['hermipy/quad.py', 'cpp/src/hermite/transform.cpp', 'hermipy/core.py'],
     [('integration as sums over products of nodes, or tensorized term by term', 'hermipy/quad.py, cpp/src/hermite/transform.cpp')],
     ['Quad.integrate', 'Quad.norm', 'core.integrate'],
     'Hypothesis, closed-form moments (Isserlis) and direct sums',
     'closed-form oracle within the degree of exactness; direct node sums elsewhere')

prop('C05', 'Variational matrices hold the integrals of f times basis functions',
     'The (i, j) entry of the variational matrix of a function is the quadrature value of the integral of the function times the i-th and j-th basis functions. It is so for dense and sparse matrices, tensorized or not, any direction set, mean, covariance, index set and degree.',
     ['inputs', 'configurations'], 'functions (including non-separable ones), quadratures, index sets and degrees for which products of basis functions stay in the doubled index set',
     'The tests check symmetric or tensorized cases of a few functions and degrees.',
     ['cpp/src/hermite/varf.cpp', 'hermipy/quad.py', 'hermipy/core.py'],
     [('transform to the doubled degree and contraction with triple products', 'cpp/src/hermite/varf.cpp'), ('tensorization of separable terms', 'hermipy/quad.py')],
     ['Quad.varf', 'core.varf'],
     'Hypothesis, differential against node sums',
     'sums over the nodes with independently computed bases; index sets where the method is inexact are recorded as known findings')

prop('C06', 'Discretised differential operators are the operators',
     'The matrix of a discretised operator, or of a function times a derivative, applied to the coefficients of a function equals the weighted projections of the operator applied to that function, including the factor, a non-diagonal covariance and mixed derivatives. Operators given symbolically and matrices assembled term by term agree.',
     ['inputs', 'configurations'], 'coefficients, orders and directions of derivatives up to total order 4, factors, means, covariances, index sets, degrees',
     'The tests discretise a few Fokker-Planck operators and compare against a legacy path with the same chain rule.',
     ['cpp/src/hermite/varf.cpp', 'hermipy/quad.py', 'hermipy/operator.py'],
     [('varfd applies derivative recurrences to the columns; the chain rule uses the inverse factor of the covariance', 'cpp/src/hermite/varf.cpp, hermipy/quad.py')],
     ['Quad.varfd', 'Quad.discretize_op', 'core.varfd'],
     'Hypothesis, differential against Leibniz and chain rule written out',
     'reference differentiates basis functions symbolically exactly; compared to rounding')

prop('C07', 'Results do not depend on how they are computed',
     'The settings (sparse, tensorize, cache, debug, trails) and the equivalent explicit options change the representation or speed of a result but never its values. Running the same computation twice gives the same result.',
     ['inputs', 'configurations', 'histories'], 'every combination of settings, every computation the library offers',
     'The tests run under the default settings, or compare two settings on one fixed case.',
     ['hermipy/settings.py', 'hermipy/quad.py', 'hermipy/core.py', 'hermipy/lib.py', 'hermipy/stats.py'],
     [('settings consulted at each call', 'hermipy/lib.py, hermipy/core.py')],
     ['every public computation under different settings'],
     'Hypothesis, metamorphic (settings) comparison',
     'default settings against random ones')

prop('C08', 'Tensor products, projections and inner products follow multi-indices',
     'The tensor product of series, matrices, quadratures or coefficient arrays has at each multi-index the product of the entries at its restrictions, for every partition of the directions, in any order. Projection keeps exactly the entries whose other indices are zero, and the inner product over shared directions contracts exactly those. Positions, directions and factors of the results are those of the product or projection.',
     ['inputs'], 'all partitions of the directions into blocks, index sets, degrees, dense and sparse',
     'The tests tensorize a few vectors and matrices of 1-D parts in consecutive directions.',
     ['cpp/src/hermite/tensorize.cpp', 'cpp/src/hermite/project.cpp', 'cpp/src/hermite/inner.cpp', 'hermipy/core.py', 'hermipy/series.py', 'hermipy/varf.py', 'hermipy/quad.py'],
     [('index maps between blocks and the whole set', 'cpp/src/hermite/tensorize.cpp')],
     ['core.tensorize', 'core.project', 'core.inner', 'Series/Varf/Quad products and projections'],
     'Hypothesis, model by multi-index',
     'definitions written out multi-index by multi-index')

prop('C09', 'The cache is transparent over any history of calls',
     'With the cache on, over any history of calls, restarts and switching of the setting, every cached function returns what it would return without the cache, with the same type, shape and values. Calls whose arguments differ in any way a function can tell (value, type, shape, grouping, keyword) are never confused, and a repeated call is served from the cache. Arguments and stored entries are not altered by the call or by what the caller does with its result.',
     ['inputs', 'histories', 'configurations'], 'every sequence of cached calls with arguments of the supported types, over process restarts',
     'One test calls two functions twice; collisions between near-equal arguments and histories are not reached.',
     ['hermipy/cache.py', 'hermipy/core.py', 'hermipy/varf.py'],
     [('keys hash type, shape and value of every argument', 'hermipy/cache.py'), ('entries saved as .npy/.npz', 'hermipy/cache.py')],
     ['hermipy.cache', 'every function of hermipy.core', 'Varf.solve'],
     'Hypothesis stateful histories against the uncached function',
     'functions that distinguish all arguments expose any key collision among the generated ones')

prop('C10', 'The cache survives killed, failing and concurrent writers',
     'If a process is killed, or a write fails, at any point of a cached call, or an entry is incomplete, later calls still return the right result. Processes sharing a cache directory never see one another\'s unfinished entries: all of them get right results.',
     ['crash_points', 'fault_sequences', 'schedules'], 'every number of bytes after which the writer is stopped, every truncation of an entry, every overlap of processes',
     'No test injects a fault or runs two processes.',
     ['hermipy/cache.py'],
     [('entries written to a temporary file and renamed; unreadable entries computed again', 'hermipy/cache.py')],
     ['cached functions after the fault'],
     'fault injection (RLIMIT_FSIZE kills and write errors, damaged entries, concurrent processes) generated by Hypothesis',
     'crash points by bytes written, all cuts of three entries enumerated; schedules are sampled by the OS')

exec(open(os.path.join(V, 'tools', 'more.py')).read()) if os.path.exists(
    os.path.join(V, 'tools', 'more.py')) else None


def main():
    lines, checks = [], []
    for pid in sorted(P):
        p = P[pid]
        path = os.path.join(V, 'vlib', 'props', pid.lower() + '.py')
        if not os.path.exists(path):
            print('no module for', pid)
            continue
        for f in p['files']:
            if not os.path.exists('/repo/' + f):
                print(pid, 'missing file', f)
        assert len(p['title']) <= 80, pid
        lines.append(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}))
        mod = importlib.import_module('vlib.props.' + pid.lower())
        checks.append({
            'property': pid, 'quick_cmd': 'bin/check ' + pid,
            'thorough_cmd': 'bin/check %s --tier=thorough' % pid,
            'technique': 'property-based testing: ' + p['technique'],
            'level': getattr(mod, 'LEVEL', 'exploration'),
            'level_note': p['note']})
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        fh.write('\n'.join(lines) + '\n')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1,
                   'setup_cmd': 'python3 vlib/build.py release asan',
                   'checks': checks, 'not_applicable': [],
                   'notes': 'No hooks: the checks use the public API of the '
                   'library built from the working tree of /repo.'},
                  fh, indent=1)
        fh.write('\n')


main()
