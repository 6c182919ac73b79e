"""C24: synthetic data has the requested shape, is non-negative and has the requested rank under its noise"""
import numpy as np

from harness import gen
from harness.core import ensure, unf
from harness.sut import tf, guard, DataGenerator

RULE = ('synthetic_data_cp and synthetic_data_tucker for 1- to 5-mode shapes, at times with up to ten modes or modes up to 1100 (lists or tuples), ranks 1-6 (CP) or per mode (Tucker), noise levels '
        '0, small and large, any seed; the noise-free part is reached by repeating the draw with noise level 0. Non-trivial: two or more modes '
        'of size >= 2 and positive noise.')
CASES = {'quick': 2500, 'thorough': 30000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(shape=st.just(sh), kind=st.sampled_from(['cp', 'tucker']), rank=gen.pick(st, 1, 6),
                                          ranks=st.lists(gen.dims(st, 4), min_size=n, max_size=n), noise=st.sampled_from([0.1, 0.0, 0.04, 1.0, 5.0]),
                                          factor=st.sampled_from([2.0, 0.5, 10.0]), seed=gen.seeds(st), tup=st.booleans()))
    return gen.wide(st)(gen.shapes(st, 1, 5, 8, 1500)).flatmap(f)


def check(case):
    sh = tuple(case['shape'])
    arg = sh if case['tup'] else list(sh)
    cp = case['kind'] == 'cp'
    rk = case['rank'] if cp else list(case['ranks'])
    f = DataGenerator.synthetic_data_cp if cp else DataGenerator.synthetic_data_tucker
    what = '%s(%s, %s)' % (f.__name__, arg, rk)

    def draw(noise):
        with guard(what), tf.Graph().as_default():
            np.random.seed(case['seed'] % 2 ** 32)
            keep = list(arg)
            X = f(arg, rk, noise)
            ensure(list(arg) == keep, '%s changed its shape argument', what)
        X = np.asarray(X)
        ensure(X.shape == sh, '%s has shape %s', what, X.shape)
        ensure(X.dtype.kind == 'f' and np.all(np.isfinite(X)), '%s: dtype %s, or not finite', what, X.dtype)
        ensure(np.min(X) >= 0, '%s, noise %g: negative entry %r', what, noise, float(np.min(X)))
        return X.astype('float64')
    low = draw(0.0)
    big = np.max(low)
    ensure(big > 0, '%s without noise is all zero', what)
    top = case['rank'] if cp else float(np.prod(case['ranks']))
    ensure(big <= top * (1 + 1e-5), '%s without noise exceeds the largest value of factors in [0, 1]: %r', what, big)
    for m in range(len(sh)):
        s = np.linalg.svd(unf(low, m), compute_uv=False)
        r = rk if cp else rk[m]
        ensure(np.all(s[r:] <= 2e-6 * s[0]), '%s without noise has mode-%d rank above %d: singular values %s', what, m, r, s)
    lab = ['kind=' + case['kind'], 'order=%d' % len(sh)]
    for m in range(len(sh)):
        rest = int(np.prod(sh)) // sh[m]
        if cp:
            full = min(rk, sh[m], rest)
        else:
            full = min(rk[m], sh[m], int(np.prod([min(a, b) for k, (a, b) in enumerate(zip(rk, sh)) if k != m])))
        if full >= 2:
            # factors in general position: the rank asked for is reached in every mode that has room for it
            s = np.linalg.svd(unf(low, m), compute_uv=False)
            ensure(s[full - 1] > 1e-12 * s[0], '%s without noise has mode-%d rank below %d: singular values %s', what, m, full, s)
            lab.append('rank reached=%d' % full)
    if case['noise']:
        a = draw(case['noise']) - low
        b = draw(case['noise'] * case['factor']) - low
        tol = 3e-6 * (big + np.max(np.abs(b)) + np.max(np.abs(a)))
        ensure(np.min(a) >= -tol, '%s: the noise has the negative entry %r', what, float(np.min(a)))
        ensure(np.max(np.abs(b - case['factor'] * a)) <= tol * max(1, case['factor']), '%s: noise does not scale with its level', what)
        ensure(np.max(a) <= 7 * case['noise'] + tol, '%s: noise level %g gives noise up to %g', what, case['noise'], np.max(a))
        if low.size >= 60:
            ensure(np.max(a) > 0.5 * case['noise'], '%s: noise level %g gives no noise above %g on %d entries', what, case['noise'], np.max(a), low.size)
            lab.append('noise amplitude checked')
            for m in range(len(sh)):  # everywhere, not only in some part
                part = np.array_split(np.moveaxis(a, m, 0), max(1, min(sh[m], 8, low.size // 120)))
                for k, p in enumerate(part):
                    if p.size >= 60:
                        ensure(np.max(p) > 0.3 * case['noise'], '%s: noise level %g gives no noise above %g on part %d of %d along mode %d (%d entries)',
                               what, case['noise'], np.max(p), k + 1, len(part), m, p.size)
    return lab


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and case['noise'] > 0
