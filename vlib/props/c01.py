"""Index sets enumerate exactly the multi-indices of their definition."""
RULE = ('Hypothesis draws an index set, a dimension and a degree (and '
        'multi-indices or sizes); a case is non-trivial when dimension >= 2 '
        'and the set has at least 4 members, or when a size must be refused')
ASSUMPTIONS = ['degrees up to 250, the limit of the code; sizes up to a million']
ROUND = {'list': 120, 'size': 120, 'index': 120, 'notsize': 80}
QUICK_S = 22


def s_list():
    from hypothesis import strategies as st
    from vlib import ref

    @st.composite
    def case(draw):
        s = draw(st.sampled_from(ref.SETS))
        dim = draw(st.integers(1, 6))
        lo = 1 if s.startswith('cross') else 0
        ok = [d for d in range(lo, 251 if dim == 1 else 70)
              if ref.size(dim, d, s) <= 900]
        return {'set': s, 'dim': dim, 'degree': draw(st.sampled_from(ok))}
    return case()


def s_size():
    from hypothesis import strategies as st
    from vlib import ref

    @st.composite
    def case(draw):
        s = draw(st.sampled_from(ref.SETS))
        dim = draw(st.integers(1, 10))
        lim = 10**6 if not s.startswith('cross') else 30000
        lo = 1 if s.startswith('cross') else 0
        ok = [lo]
        for d in range(lo, 251):
            if ref.size(dim, d, s) > lim:
                break
            ok.append(d)
        return {'set': s, 'dim': dim, 'degree': draw(st.sampled_from(ok))}
    return case()


def s_index():
    from hypothesis import strategies as st
    from vlib import ref

    @st.composite
    def case(draw):
        s = draw(st.sampled_from(['triangle', 'cube']))
        dim = draw(st.integers(1, 7))
        m = draw(st.lists(st.integers(0, 40), min_size=dim, max_size=dim))
        while ref.size(dim, sum(m) if s == 'triangle' else max(m), s) \
                >= 2**31:
            m = [k//2 for k in m]
        return {'set': s, 'm': m, 'np': draw(st.booleans())}
    return case()


def s_notsize():
    from hypothesis import strategies as st
    from vlib import ref

    @st.composite
    def case(draw):
        s = draw(st.sampled_from(ref.SETS))
        dim = draw(st.integers(1, 6))
        return {'set': s, 'dim': dim, 'n': draw(st.integers(0, 3000))}
    return case()


SUBS = {'list': (s_list, 3), 'size': (s_size, 1), 'index': (s_index, 1),
        'notsize': (s_notsize, 1)}


def fixed(tier):
    from vlib import ref
    out = []
    top = 400 if tier == 'quick' else 2500
    for s in ref.SETS:
        for dim in range(1, 7):
            for d in range(1 if s.startswith('cross') else 0,
                           20 if tier == 'quick' else 60):
                if ref.size(dim, d, s) <= top:
                    out.append(('list', {'set': s, 'dim': dim, 'degree': d}))
    return out


def same(dim, d1, d2, s):
    from vlib import ref
    return ref.size(dim, d1, s) == ref.size(dim, d2, s)


def check(sub, c):
    from vlib import ref
    from vlib.api import core, fail, raises
    s, kw = c['set'], {'index_set': c['set']}
    if sub == 'list':
        dim, deg = c['dim'], c['degree']
        got = core.iterator_list_indices(dim, deg, **kw)
        if got.ndim != 2 or got.shape[1] != dim:
            fail('the list has shape %s', got.shape)
        got = [tuple(int(k) for k in m) for m in got]
        want = ref.indices(dim, deg, s)
        if len(set(got)) != len(got):
            fail('a multi-index is listed twice')
        if set(got) != want:
            diff = set(got) ^ want
            fail('the list and the definition differ by %s', sorted(diff)[:4])
        n = core.iterator_size(dim, deg, **kw)
        if n != len(want):
            fail('size %d, but %d members', n, len(want))
        d2 = core.iterator_get_degree(dim, n, **kw)
        if ref.indices(dim, d2, s) != want:
            fail('get_degree(%d) = %d', n, d2)
        if s in ('triangle', 'cube'):
            for i, m in enumerate(got):
                k = core.iterator_index(list(m), **kw)
                if k != i:
                    fail('index(%s) = %d, but the list has it at %d', m, k, i)
        again = core.iterator_list_indices(dim, deg, **kw)
        if [tuple(int(k) for k in m) for m in again] != got:
            fail('the list changes from one call to the next')
        return dim > 1 and len(got) > 3, [s, 'dim%d' % dim]
    if sub == 'size':
        dim, deg = c['dim'], c['degree']
        n = core.iterator_size(dim, deg, **kw)
        if n != ref.size(dim, deg, s):
            fail('size %d, expected %d', n, ref.size(dim, deg, s))
        d2 = core.iterator_get_degree(dim, n, **kw)
        if ref.size(dim, d2, s) != n:
            fail('get_degree(%d) = %d, whose size is %d', n, d2,
                 ref.size(dim, d2, s))
        return dim > 1 and n > 3, [s, 'big' if n > 2500 else 'small']
    if sub == 'index':
        import numpy as np
        m, dim = c['m'], len(c['m'])
        deg = sum(m) if s == 'triangle' else max(m)
        arg = np.array(m) if c['np'] else list(m)
        k = core.iterator_index(arg, **kw)
        lo = ref.size(dim, deg - 1, s) if deg else 0
        if not lo <= k < ref.size(dim, deg, s):
            fail('index(%s) = %d lies outside degree %d', m, k, deg)
        # same-degree neighbours have other indices
        for i in range(dim):
            for j in range(dim):
                if i != j and m[i] > 0:
                    o = list(m)
                    o[i] -= 1
                    o[j] += 1
                    if core.iterator_index(o, **kw) == k:
                        fail('%s and %s have the same index', m, o)
        return dim > 1 and deg > 1, [s]
    if sub == 'notsize':
        dim, n = c['dim'], c['n']
        sizes = {}
        d = 0
        while True:
            z = ref.size(dim, d, s)
            sizes[z] = d
            if z > n or d > 3001:
                break
            d += 1
        if n in sizes and n > 0:
            if sizes[n] > 250:
                return False, ['too high']
            d2 = core.iterator_get_degree(dim, n, **kw)
            if not same(dim, d2, sizes[n], s):
                fail('get_degree(%d) = %d', n, d2)
            return dim > 1, ['size']
        if n == 1 and s.startswith('cross'):
            return False, ['degree 0']
        raises(lambda: core.iterator_get_degree(dim, n, **kw), ValueError)
        return True, ['refused']
