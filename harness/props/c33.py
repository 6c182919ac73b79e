"""C33: the operators are ordinary graph nodes: known shapes, fresh values at every run, exact gradients"""
import numpy as np

from harness import gen
from harness.core import data, ensure, exact, near
from harness.sut import DTensor, KTensor, TTensor, guard, loss, ops, pitf_ops, tf

NAMES = ['unfold', 'fold', 't2mat', 'vectorize', 'vec_to_tensor', 'mul', 'inner', 'ttm', 'ttm transposed', 'ttm skipping', 'hadamard', 'kron', 'khatri',
         'khatri skipping', 'xcb', 'kruskal', 'tucker', 'dtensor', 'l2', 'rmse', 'rmse_ignore_zero', 'sampling', 'centralization', 'single values']
RULE = ('one of the operators, tensor types and losses listed in NAMES, fed through placeholders of float64 or float32, with integer arguments of order 1-5; the static shape '
        'and type of the result must be those of its value, the same graph run with other values must give what a graph of constants gives, and '
        'the gradient of a random functional of the result must be the derivative: exactly the functional of the result in which that argument is '
        'replaced by the direction where the operator is linear in it, the derivative of the stated formula for the losses. Non-trivial: two or '
        'more entries in every argument.')
CASES = {'quick': 2400, 'thorough': 30000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            name=st.sampled_from(NAMES), shape=st.just(sh), mode=gen.pick(st, 0, n - 1), rank=gen.pick(st, 1, 4),
            ranks=st.lists(gen.dims(st, 4), min_size=n, max_size=n), seed=gen.seeds(st), perm=gen.perms(st, n), cut=gen.pick(st, 0, n),
            rev=st.booleans(), weights=st.booleans(), dtype=st.sampled_from(['float64', 'float64', 'float32'])))
    return gen.shapes(st, 1, 5, 5, 300).flatmap(f)


def make(case):
    """-> (shapes of the arguments, the operator on tensors of these shapes, the arguments it is linear in)"""
    sh, n, m, R, name = list(case['shape']), len(case['shape']), case['mode'], case['rank'], case['name']
    size = int(np.prod(sh))
    mats = [[d, R] for d in sh]
    ups = [[q, d] for q, d in zip(case['ranks'], sh)]
    downs = [[d, q] for q, d in zip(case['ranks'], sh)]
    kw = dict(reverse=case['rev'])
    skip = m if n > 1 else None
    if name == 'unfold':
        return [sh], lambda x: ops.unfold(x, m), [0]
    if name == 'fold':
        return [[sh[m], size // sh[m]]], lambda x: ops.fold(x, m, sh), [0]
    if name == 't2mat':
        r, c = case['perm'][:max(1, case['cut'])], case['perm'][max(1, case['cut']):]
        if not c:
            return [sh + [1]], lambda x: ops.t2mat(x, r, [n]), [0]
        return [sh], lambda x: ops.t2mat(x, r, c), [0]
    if name == 'vectorize':
        return [sh], ops.vectorize, [0]
    if name == 'vec_to_tensor':
        return [[size]], lambda x: ops.vec_to_tensor(x, sh), [0]
    if name == 'mul':
        return [sh, [R, sh[m]]], lambda x, y: ops.mul(x, y, m, 1), [0, 1]
    if name == 'inner':
        return [sh, sh], ops.inner, [0, 1]
    if name == 'ttm':
        return [sh] + ups, lambda x, *a: ops.ttm(x, list(a)), range(n + 1)
    if name == 'ttm transposed':
        return [sh] + downs, lambda x, *a: ops.ttm(x, list(a), transpose=True), range(n + 1)
    if name == 'ttm skipping':
        return [sh] + ups, lambda x, *a: ops.ttm(x, list(a), skip_matrices_index=skip), [0] + [i + 1 for i in range(n) if i != skip]
    if name == 'hadamard':
        return [[sh[0], R]] * n, lambda *a: ops.hadamard(list(a), skip), [i for i in range(n) if i != skip]
    if name == 'kron':
        k = min(n, 3)
        return ups[:k], lambda *a: ops.kron(list(a), **kw), range(k)
    if name == 'khatri':
        return mats, lambda *a: ops.khatri(list(a), **kw), range(n)
    if name == 'khatri skipping':
        return mats, lambda *a: ops.khatri(list(a), skip, **kw), [i for i in range(n) if i != skip]
    if name == 'xcb':
        s = (sh + [2, 2])[:3]
        return [s, [s[2], R], [s[1], R]], ops.xcb, [1]
    if name == 'kruskal':
        if case['weights']:
            return mats + [[R]], lambda *a: KTensor(list(a[:-1]), a[-1]).extract(), range(n + 1)
        return mats, lambda *a: KTensor(list(a)).extract(), range(n)
    if name == 'tucker':
        return [case['ranks']] + downs, lambda g, *a: TTensor(g, list(a)).extract(), range(n + 1)
    if name == 'dtensor':
        return [sh, sh, [sh[m], R]], lambda x, y, a: ((DTensor(x) * DTensor(y) + DTensor(x) - x * 2.0).unfold(m).mul(DTensor(a), 0, 0)).T, [0, 2]
    if name == 'sampling':
        s = (sh + [3, 2])[:3]
        spl = [np.random.RandomState((case['seed'] + k) % 2 ** 31).randint(0, s[k], 2 + R) for k in range(3)]
        return [[s[0], s[1]]], lambda x: tf.convert_to_tensor(pitf_ops.Pomega_mat(spl, x, s, 2 + R, 0)), [0]
    if name == 'centralization':
        return [[sh[0], R]], pitf_ops.centralization, [0]
    if name == 'single values':
        return [[2, 3]] * n, lambda *a: ops.max_single_value_mul(list(a), skip), []
    return [sh, sh], getattr(loss, name), None


def check(case):
    name, dtype, seed = case['name'], case['dtype'], case['seed']
    if name == 'sampling' or name == 'centralization':
        dtype = 'float32'
    shapes, f, linear = make(case)
    what = '%s of arguments of shapes %s (%s; mode %d, reverse %s)' % (name, shapes, dtype, case['mode'], case['rev'])

    def draw(k):
        a = [data(s, 'ints', seed + 7 * i + 131 * k, dtype) for i, s in enumerate(shapes)]
        if linear is None:  # a loss is not differentiable where the two agree
            a[1].flat[0] += 9
            a[0].flat[0] = 2
        return a
    args, other, dirs = draw(0), draw(1), draw(2)
    with guard(what), tf.Graph().as_default():
        p = [tf.placeholder(dtype, s) for s in shapes]
        out = f(*p)
        ensure(isinstance(out, tf.Tensor), '%s: the result is a %s, not a tensor', what, type(out).__name__)
        static, rt = out.get_shape(), out.dtype.base_dtype.as_numpy_dtype
        C = data([int(d) for d in static.as_list()] if static.is_fully_defined() else [], 'ints', seed + 5, dtype)
        want_grad = linear is None or len(linear)
        if want_grad:
            phi = tf.reduce_sum(out * tf.constant(C)) if linear is not None else out
            wrt = [p[i] for i in (linear if linear is not None else [0, 1])]
            grads = tf.gradients(phi, wrt)
        else:
            grads = []
        missing = [i for i, g in enumerate(grads) if g is None]
        ensure(not missing, '%s: no gradient reaches the argument %s of those it depends on', what, missing)
        grads = [tf.convert_to_tensor(g) for g in grads]
        # the operator with one argument replaced by the direction, in a graph of constants
        const = [f(*[tf.constant(a) for a in x]) for x in (args, other)]
        moved = [f(*[tf.constant(dirs[j] if j == i else a) for j, a in enumerate(args)]) for i in (linear or [])]
        with tf.Session() as s:
            v1, g1 = s.run([out, grads], dict(zip(p, args)))
            v2 = s.run(out, dict(zip(p, other)))
            v3 = s.run(out, dict(zip(p, args)))
            c1, c2 = s.run(const)
            moved = s.run(moved)
    ensure(static.is_fully_defined() and tuple(static.as_list()) == np.shape(v1), '%s: static shape %s, value of shape %s', what, static, np.shape(v1))
    ensure(rt == np.dtype(dtype) and v1.dtype == np.dtype(dtype), '%s: type %s for arguments of type %s', what, np.dtype(rt), dtype)
    tol = 1e-12 if dtype == 'float64' else 1e-5
    near(v1, c1, what + ', placeholders against constants', tol, tol)
    near(v2, c2, what + ', the graph run again with other values', tol, tol)
    exact(v3, v1, what + ', the graph run with the first values again')
    a64 = [a.astype('float64') for a in args]
    for k, g in enumerate(g1):
        if linear is not None:
            i = linear[k]
            left = np.sum(g.astype('float64') * dirs[i].astype('float64'))
            right = np.sum(C.astype('float64') * moved[k].astype('float64'))
            size = np.sum(np.abs(g.astype('float64') * dirs[i]))
            ensure(abs(left - right) <= 10 * tol * (size + np.sum(np.abs(C * moved[k].astype('float64')))), '%s: derivative in the direction of argument %d is %r, its gradient says %r', what, i, right, left)
        else:
            D = a64[0] - a64[1]
            if name == 'l2':
                want = D
            else:
                on = np.ones_like(D) if name == 'rmse' else (a64[0] != 0) * 1.0
                want = D * on / np.sqrt(np.sum(on) * np.sum(D ** 2 * on))
            near(g, want if k == 0 else -want, '%s: gradient with respect to argument %d' % (what, k), 10 * tol, 10 * tol)
    return ['name=' + name, 'dtype=' + dtype] + (['gradient'] if grads else [])


def nontrivial(case, labels):
    return all(np.prod(s) > 1 for s in make(case)[0])
