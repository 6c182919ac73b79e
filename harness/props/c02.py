"""C02: t2mat / vectorize / vec_to_tensor place every entry where the axis lists say"""
import numpy as np

from harness import gen
from harness.core import data, exact, ensure
from harness.sut import ops, run, tf

RULE = ('tensor of order 1-7, a random permutation of the axes cut into row and column axes; both given explicitly as '
        'int/list/tuple or the column axes inferred (-1). Non-trivial: order >= 3 and the axes are not in increasing order, '
        'or columns inferred with a non-leading row axis.')
CASES = {'quick': 8000, 'thorough': 100000}


def strategy(st, tier):
    def with_shape(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            shape=st.just(sh), perm=gen.perms(st, n), cut=gen.pick(st, 1, n),
            infer=st.booleans(), rform=st.sampled_from(['list', 'int', 'tuple']), cform=st.sampled_from(['list', 'int', 'tuple']),
            dtype=st.sampled_from(['int64', 'int32', 'float32', 'float64']),
            fill=st.sampled_from(['index', 'ints', 'wide']), seed=gen.seeds(st)))
    return gen.wide(st)(gen.shapes(st, 1, 7, 6)).flatmap(with_shape)


def form(axes, how):
    if how == 'int' and len(axes) == 1:
        return axes[0]
    return tuple(axes) if how == 'tuple' else list(axes)


def check(case):
    sh = case['shape']
    X = data(sh, case['fill'], case['seed'], case['dtype'])
    r, c = case['perm'][:case['cut']], case['perm'][case['cut']:]
    rows = form(r, case['rform'])
    if case['infer']:
        cols = -1
        c = [i for i in range(len(sh)) if i not in r]
    else:
        cols = form(c, case['cform'])
    ref = np.transpose(X, r + c).reshape(int(np.prod([sh[i] for i in r])), int(np.prod([sh[i] for i in c], dtype=int)))

    def build():
        T = tf.constant(X)
        v = ops.vectorize(T)
        return [ops.t2mat(T, rows, cols), v, ops.vec_to_tensor(v, list(sh)), ops.vec_to_tensor(v, tuple(sh)),
                ops.vectorize(ops.vec_to_tensor(tf.constant(X.ravel()), sh))]
    M, v, t1, t2, v2 = run('t2mat(shape %s, r_axis=%r, c_axis=%r) / vectorize' % (sh, rows, cols), build)
    exact(M, ref, 't2mat(r_axis=%r, c_axis=%r)' % (rows, cols))
    ensure(M.dtype == X.dtype, 'dtype changed to %s', M.dtype)
    exact(v, X.ravel(), 'vectorize')
    exact(t1, X, 'vec_to_tensor(vectorize(X), list)')
    exact(t2, X, 'vec_to_tensor(vectorize(X), tuple)')
    exact(v2, X.ravel(), 'vectorize(vec_to_tensor(v))')
    lab = ['order=%d' % len(sh), 'columns inferred' if case['infer'] else 'columns given', 'row axes: %d' % len(r)]
    if r != sorted(r):
        lab.append('row axes not increasing')
    if c != sorted(c):
        lab.append('column axes not increasing')
    if not c:
        lab.append('no column axes')
    return lab


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and len(case['shape']) >= 2 and (
        'row axes not increasing' in labels or 'column axes not increasing' in labels or
        (case['infer'] and case['perm'][0] != 0))
