"""C25: products used by the updates: X(0)(C kr B) and products of spectral norms"""
import numpy as np

from harness import gen
from harness.core import data, kr, near, unf
from harness.sut import ops, run, tf

RULE = ('xcb on third-order tensors with zeros, negatives and any mode sizes, and max_single_value_mul on lists of 1-5 rectangular or square '
        'matrices with none, one or several skipped, both against float64 NumPy, both dtypes. Non-trivial: xcb with rank >= 2, or at least two matrices '
        'left in the product.')
CASES = {'quick': 3000, 'thorough': 40000}


def strategy(st, tier):
    d = gen.mix(st, (20, st.sampled_from([3, 2, 4, 5, 6, 7, 1])), (1, gen.pick(st, 8, 30)))
    x = st.fixed_dictionaries(dict(op=st.just('xcb'), shape=st.lists(d, min_size=3, max_size=3), rank=gen.size(st, 1, 5, 20),
                                   fill=st.sampled_from(['normal', 'sparse', 'ints', 'index', 'bits', 'big', 'spread', 'spread']), seed=gen.seeds(st),
                                   dtype=st.sampled_from(['float32', 'float64'])))

    def f(mats):
        n = len(mats)
        skip = st.one_of(st.none(), gen.pick(st, 0, n - 1), gen.subset(st, n, 0, n - 1)) if n > 1 else st.one_of(st.none(), st.just([]))
        return st.fixed_dictionaries(dict(op=st.just('svmul'), mats=st.just(mats), skip=skip, seed=gen.seeds(st),
                                          fill=st.sampled_from(['normal', 'ints', 'unit', 'big', 'small', 'const', 'neg']),
                                          dtype=st.sampled_from(['float32', 'float64'])))
    return st.one_of(x, gen.sized(st, st.lists(d, min_size=2, max_size=2), 1, 5).flatmap(f))


def check(case):
    tol = 2e-5 if case['dtype'] == 'float32' else 1e-11
    if case['op'] == 'xcb':
        I, J, K = case['shape']
        X = data((I, J, K), case['fill'], case['seed'], case['dtype'])
        B = data((J, case['rank']), 'spread' if case['fill'] == 'spread' else 'normal', case['seed'] + 1, case['dtype'])
        C = data((K, case['rank']), 'spread' if case['fill'] == 'spread' else 'normal', case['seed'] + 2, case['dtype'])
        got = run('xcb of shape %s, rank %d' % (case['shape'], case['rank']), lambda: ops.xcb(tf.constant(X), tf.constant(C), tf.constant(B)))
        x, b, c = (a.astype('float64') for a in (X, B, C))
        want = unf(x, 0) @ kr([c, b])
        near(got, want, 'xcb of shape %s, rank %d' % (case['shape'], case['rank']), 0,
             tol * (np.abs(unf(x, 0)) @ np.abs(kr([c, b]))) + 1e-30)
        return ['op=xcb', 'rank 1' if case['rank'] == 1 else 'rank 2+', 'with zeros' if not np.all(X) else 'dense']
    mats = [data(s, case['fill'], case['seed'] + i, case['dtype']) for i, s in enumerate(case['mats'])]
    skip = case['skip']
    out = [] if skip is None else [skip] if isinstance(skip, int) else skip
    left = [m for i, m in enumerate(mats) if i not in out]
    what = 'max_single_value_mul of %s, skipping %s' % (case['mats'], skip)
    got = run(what, lambda: ops.max_single_value_mul([tf.constant(m) for m in mats], skip))
    want = np.prod([np.linalg.norm(m.astype('float64'), 2) for m in left])
    near(got, want, what, tol, 1e-30)
    return ['op=max_single_value_mul', 'left in the product: %s' % min(len(left), 3), 'skip=%s' % type(skip).__name__]


def nontrivial(case, labels):
    return 'rank 2+' in labels or 'left in the product: 2' in labels or 'left in the product: 3' in labels
