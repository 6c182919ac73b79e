"""C01: unfolding and folding are Kolda's mode-n matricization and its inverse"""
import numpy as np

from harness import gen
from harness.core import data, exact, unf, ensure
from harness.sut import ops, run, tf, guard

RULE = ('tensor of order 1-8 (mixed, square, singleton and long modes, up to 4000 entries), six dtypes, constant, placeholder '
        'or variable input; every mode is unfolded, folded back (list and tuple shape), and a matrix is folded then '
        'unfolded. Non-trivial: at least two modes of size >= 2 and not all entries equal.')
CASES = {'quick': 4000, 'thorough': 60000}


def strategy(st, tier):
    return st.fixed_dictionaries(dict(
        shape=gen.wide(st)(gen.shapes(st, 1, 8, 7)), dtype=st.sampled_from(['int64', 'int32', 'float32', 'float64', 'bool', 'complex64']),
        fill=st.sampled_from(['index', 'index', 'ints', 'wide', 'bits']), seed=gen.seeds(st),
        via=st.sampled_from(['const', 'placeholder', 'variable']), aslist=st.booleans()))


def check(case):
    sh = case['shape']
    X = data(sh, case['fill'], case['seed'], case['dtype'])
    n = len(sh)
    conv = list if case['aslist'] else tuple
    with guard('unfold/fold of a %s %s tensor' % (sh, case['dtype'])), tf.Graph().as_default():
        feed, init = {}, None
        if case['via'] == 'placeholder':
            T = tf.placeholder(X.dtype, shape=sh)
            feed = {T: X}
        elif case['via'] == 'variable':
            T = tf.Variable(X)
            init = T.initializer
        else:
            T = tf.constant(X)
        un = [ops.unfold(T, m) for m in range(n)]
        un0 = ops.unfold(T)
        back = [ops.fold(u, m, conv(sh)) for m, u in enumerate(un)]
        mats = [tf.constant(unf(X, m)) for m in range(n)]
        fo = [ops.fold(mats[m], m, conv(sh)) for m in range(n)]
        again = [ops.unfold(fo[m], m) for m in range(n)]
        static = [u.get_shape().as_list() for u in un], [f.get_shape().as_list() for f in back]
        with tf.Session() as s:
            if init is not None:
                s.run(init)
            un, un0, back, fo, again = s.run([un, un0, back, fo, again], feed_dict=feed)
    for m in range(n):
        ref = unf(X, m)
        exact(un[m], ref, 'unfold(X, %d)' % m)
        exact(back[m], X, 'fold(unfold(X, %d))' % m)
        exact(fo[m], X, 'fold(M, %d)' % m)
        exact(again[m], ref, 'unfold(fold(M, %d), %d)' % (m, m))
        ensure(un[m].dtype == X.dtype and back[m].dtype == X.dtype, 'dtype changed from %s to %s/%s', X.dtype, un[m].dtype,
               back[m].dtype)
    exact(un0, unf(X, 0), 'unfold(X) with the default mode')
    ensure(static[0] == [list(unf(X, m).shape) for m in range(n)] and static[1] == [sh] * n,
           'static shapes %s', static)
    lab = ['order=%d' % n, 'via=' + case['via'], 'dtype=' + case['dtype']]
    if 1 in sh:
        lab.append('has singleton mode')
    if max(sh) >= 8:
        lab.append('has long mode')
    return lab


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and case['fill'] != 'bits'
