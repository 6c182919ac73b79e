"""C04: mode products"""
import numpy as np

from harness import gen
from harness.core import data, near, mode_mul, ensure, exact
from harness.sut import ops, run, tf, guard, raises

RULE = ('tensor of order 1-7 and a list of matrices (or one bare matrix) for the default modes, for an explicit axis list in any '
        'order, or for all modes with some skipped (int or list in any order), plain or transposed; plus calls that give both axis '
        'and skip. Non-trivial: at least one mode is multiplied by a matrix with more than one entry.')
CASES = {'quick': 6000, 'thorough': 80000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            shape=st.just(sh), mode=st.sampled_from(['default', 'axis', 'skip']),
            perm=gen.perms(st, n), take=gen.pick(st, 1, n), rows=st.lists(gen.mix(st, (24, gen.dims(st, 5)), (1, gen.pick(st, 6, 50))), min_size=n, max_size=n),
            square=st.booleans(),
            skip=st.one_of(gen.pick(st, 0, n - 1), gen.subset(st, n)),
            transpose=st.booleans(), bare=st.booleans(), partial=st.booleans(),
            dtype=st.sampled_from(['float32', 'float64', 'int32', 'int64']),
            fill=st.sampled_from(['ints', 'index', 'normal', 'bits', 'spread']), seed=gen.seeds(st)))
    return gen.wide(st)(gen.shapes(st, 1, 7, 5, 1200)).flatmap(f)


def check(case):
    sh, n, dt = case['shape'], len(case['shape']), case['dtype']
    fill = 'ints' if dt.startswith('int') and case['fill'] in ('normal', 'spread') else case['fill']
    X = data(sh, fill, case['seed'], dt)
    tr = case['transpose']
    rows = list(sh) if case['square'] else list(case['rows'])
    size = 1
    for i in range(n):  # keep the result small
        if size * max(rows[i], sh[i]) > 20000:
            rows[i] = 1
        size *= max(rows[i], 1)
    kw = {}
    if case['mode'] == 'default':
        modes = list(range(case['take']))
    elif case['mode'] == 'axis':
        modes = case['perm'][:case['take']]
        kw['axis'] = list(modes)
    else:
        modes = list(range(case['take'] if case['partial'] else n))
        kw['skip_matrices_index'] = case['skip']
    mats = [data([sh[m], rows[m]] if tr else [rows[m], sh[m]], fill if fill != 'index' else 'ints', case['seed'] + 17 * (m + 1), dt)
            for m in modes]
    skipped = []
    if case['mode'] == 'skip':
        skipped = [case['skip']] if isinstance(case['skip'], int) else case['skip']
        if all(m in skipped for m in modes):  # at least one matrix must remain
            skipped = [m for m in skipped if m != modes[-1]]
            kw['skip_matrices_index'] = list(skipped)
    ref = X.astype('float64') if dt.startswith('f') else X
    mag = np.abs(ref)
    for m, M in zip(modes, mats):
        if m not in skipped:
            M = M.astype(ref.dtype)
            ref = mode_mul(ref, M.T if tr else M, m)
            mag = mode_mul(mag, np.abs(M.T if tr else M), m)
    if tr:
        kw['transpose'] = True
    bare = case['bare'] and len(mats) == 1

    def build():
        t = [tf.constant(m) for m in mats]
        return ops.ttm(tf.constant(X), t[0] if bare else t, **kw)
    what = 'ttm(shape %s, %d matrices%s, %s)' % (sh, len(mats), ' (bare)' if bare else '', kw)
    got = run(what, build)
    if dt.startswith('int'):
        exact(got, ref.astype(dt), what)
    else:
        near(got, ref, what, 0, (1e-5 if dt == 'float32' else 1e-12) * mag)
    ensure(np.asarray(got).dtype == np.dtype(dt), '%s: dtype %s', what, got.dtype)

    # giving both selectors is refused, whatever they are
    with tf.Graph().as_default():
        T = tf.constant(X)
        t = [tf.constant(m) for m in mats]
        raises(ValueError, lambda: ops.ttm(T, t, axis=modes, skip_matrices_index=case['skip'], transpose=tr),
               'ttm with axis=%r and skip_matrices_index=%r' % (modes, case['skip']))
    lab = ['order=%d' % n, 'selector=' + case['mode'], 'transposed' if tr else 'plain']
    if bare:
        lab.append('bare matrix')
    if modes != sorted(modes):
        lab.append('axis list not increasing')
    if len(modes) < n:
        lab.append('fewer matrices than modes')
    if isinstance(case['skip'], list) and case['mode'] == 'skip':
        lab.append('skip list of %d' % len(skipped))
    return lab


def nontrivial(case, labels):
    return max(case['shape']) > 1 and case['fill'] != 'bits'
