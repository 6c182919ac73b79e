"""C32: the conventions of the operators fit together: the identities of multilinear algebra hold between them"""
import numpy as np

from harness import gen
from harness.core import data, exact, near
from harness.sut import DTensor, KTensor, TTensor, ops, run, tf

NAMES = ['kruskal unfolding', 'tucker unfolding', 'mode product', 'matricized product', 'kronecker of mode products', 'inner', 'mode products commute', 'mode products compose',
         'gram of khatri', 'mixed products', 'superdiagonal core', 'norm', 'vectorized mode products', 'fold of unfold']
PER_MODE = NAMES[:3] + NAMES[-2:]
RULE = ('a tensor of order 1-6 and matrices that fit, integer entries (compared exactly) or normal draws, and one of the identities named in NAMES between '
        'operators of the library (unfoldings of Kruskal and Tucker tensors, mode products in different modes and in one, vectorization, matricized contraction, inner '
        'product, Grams, mixed products, superdiagonal core, norms); both sides are computed by the library in one graph, in every mode where the identity speaks of one. Non-trivial: order 3 or more '
        'with two or more modes of size above one.')
CASES = {'quick': 4800, 'thorough': 60000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            name=st.sampled_from(NAMES), shape=st.just(sh), mode=gen.pick(st, 0, n - 1), rank=gen.pick(st, 1, 4),
            ranks=st.lists(gen.dims(st, 4), min_size=n, max_size=n), fill=st.sampled_from(['ints', 'normal', 'sparse', 'index']),
            seed=gen.seeds(st), perm=gen.perms(st, n), cut=gen.pick(st, 0, n), rev=st.booleans(), weights=st.booleans()))
    return gen.wide(st, 1, 8, 24)(gen.shapes(st, 1, 6, 5, 1000)).flatmap(f)


def check(case):
    n, name = len(case['shape']), case['name']
    # what speaks of one mode must hold for every mode
    for m in (range(n) if name in PER_MODE else [case['mode']]):
        check_mode(dict(case, mode=m))
    return ['identity=' + name, 'order=%d' % n]


def check_mode(case):
    sh, n, m, R, name = case['shape'], len(case['shape']), case['mode'], case['rank'], case['name']
    k = [0]

    def mk(shape, fill=None):
        k[0] += 1
        fill = fill or ('ints' if case['fill'] == 'index' else case['fill'])
        a = data(shape, fill, case['seed'] + k[0], 'float64')
        return tf.constant(a)
    X_fill = case['fill']
    rest = [i for i in range(n) if i != m]

    def dense(x):
        return tf.convert_to_tensor(x)

    def build():
        X = mk(sh, X_fill)
        T = dense(X)
        if name == 'kruskal unfolding':
            A = [mk([d, R]) for d in sh]
            lam = mk([R]) if case['weights'] else None
            full = KTensor(A, lam).extract()
            left = ops.unfold(full, m)
            a = dense(A[m]) * (dense(lam) if case['weights'] else 1)
            right = tf.matmul(a, ops.khatri(A, skip_matrices_index=m, reverse=True), transpose_b=True) if n > 1 else tf.reduce_sum(a, 1, keep_dims=True)
        elif name == 'tucker unfolding':
            r = case['ranks']
            A = [mk([d, q]) for d, q in zip(sh, r)]
            G = mk(r)
            left = ops.unfold(TTensor(G, A).extract(), m)
            right = tf.matmul(dense(A[m]), ops.unfold(G, m))
            if n > 1:
                right = tf.matmul(right, ops.kron(A, skip_matrices_index=m, reverse=True), transpose_b=True)
        elif name == 'mode product':
            U = mk([R, sh[m]])
            left = ops.ttm(X, [U], axis=[m])
            right = ops.fold(tf.matmul(dense(U), ops.unfold(X, m)), m, sh[:m] + [R] + sh[m + 1:])
        elif name == 'matricized product':
            # rows and columns of two matricizations multiply like the contraction
            rows, cols = case['perm'][:case['cut']], case['perm'][case['cut']:]
            if not rows or not cols:
                rows, cols = [0], list(range(1, n))
            if not cols:
                return dense(0), dense(0)
            Y = mk([sh[c] for c in cols] + [R])
            left = ops.t2mat(ops.mul(X, Y, sorted(cols), [cols.index(c) for c in sorted(cols)]), list(range(len(rows))), len(rows))
            rows = sorted(rows)
            right = tf.matmul(ops.t2mat(X, rows, cols), ops.t2mat(Y, list(range(len(cols))), len(cols)))
        elif name == 'kronecker of mode products':
            A = [mk([q, d]) for q, d in zip(case['ranks'], sh)]
            left = ops.vectorize(ops.ttm(X, A))
            right = tf.reshape(tf.matmul(ops.kron(A), tf.reshape(ops.vectorize(X), [-1, 1])), [-1])
        elif name == 'vectorized mode products':
            A = [mk([q, d]) for q, d in zip(case['ranks'], sh)]
            left = ops.unfold(ops.ttm(X, A, skip_matrices_index=[m]) if n > 1 else X, m)
            right = ops.unfold(X, m)
            if n > 1:
                right = tf.matmul(right, ops.kron(A, skip_matrices_index=m, reverse=True), transpose_b=True)
        elif name == 'inner':
            Y = mk(sh)
            left = ops.inner(X, Y)
            right = tf.reduce_sum(ops.mul(X, Y, list(range(n)), list(range(n))))
        elif name == 'mode products commute':
            j = rest[case['seed'] % len(rest)] if rest else m
            U, W = mk([R, sh[m]]), mk([2, sh[j]])
            if j == m:
                return dense(0), dense(0)
            left = ops.ttm(ops.ttm(X, [U], axis=[m]), [W], axis=[j])
            right = ops.ttm(X, [W, U], axis=[j, m])
        elif name == 'mode products compose':
            U, W = mk([R, sh[m]]), mk([R, 3])
            left = ops.ttm(ops.ttm(X, [U], axis=[m]), [W], axis=[m], transpose=True)
            right = ops.ttm(X, [tf.matmul(dense(W), dense(U), transpose_a=True)], axis=[m])
        elif name == 'gram of khatri':
            A = [mk([d, R]) for d in sh]
            K = ops.khatri(A, reverse=case['rev'])
            left = tf.matmul(K, K, transpose_a=True)
            right = ops.hadamard([tf.matmul(dense(a), dense(a), transpose_a=True) for a in A])
        elif name == 'mixed products':
            A = [mk([q, d]) for q, d in zip(case['ranks'][:4], sh[:4])]
            B = [mk([d, 2]) for d in sh[:4]]
            left = tf.matmul(ops.kron(A, reverse=case['rev']), ops.khatri(B, reverse=case['rev']))
            right = ops.khatri([tf.matmul(dense(a), dense(b)) for a, b in zip(A, B)], reverse=case['rev'])
        elif name == 'superdiagonal core':
            # a Kruskal tensor is the Tucker tensor of a superdiagonal core
            A = [mk([d, R]) for d in sh]
            lam = mk([R])
            G = np.zeros([R] * n, 'float64')
            idx = np.arange(R)
            G[tuple([idx] * n)] = 1
            left = KTensor(A, lam).extract()
            right = TTensor(tf.constant(G) * tf.reshape(dense(lam), [R] + [1] * (n - 1)), A).extract()
        elif name == 'norm':
            # squared norm of a Kruskal tensor from the grams of its factors
            A = [mk([d, R]) for d in sh]
            lam = mk([R])
            F = KTensor(A, lam).extract()
            left = ops.inner(F, F)
            H = ops.hadamard([tf.matmul(dense(a), dense(a), transpose_a=True) for a in A])
            right = tf.reduce_sum(H * tf.expand_dims(dense(lam), 1) * tf.expand_dims(dense(lam), 0))
        else:
            D = DTensor(X)
            left = ops.fold(D.unfold(m).T, m, sh)
            right = T
        return left, right
    what = '%s, shape %s, mode %d, rank %s, ranks %s' % (name, sh, m, R, case['ranks'])
    left, right = run(what, build)
    if case['fill'] in ('ints', 'index'):
        exact(left, right, what)
    else:  # entries of about one: the terms are at most of this size, and it is no coincidence if they agree
        near(left, right, what, 1e-9, 4.0 ** n * 1e-10)


def nontrivial(case, labels):
    return len(case['shape']) >= 3 and sum(d > 1 for d in case['shape']) >= 2
