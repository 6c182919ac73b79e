"""C21: the sampling operators of PITF pick the right entries and their adjoints put them back"""
import numpy as np

from harness import gen
from harness.core import data, ensure, exact, near
from harness.sut import tf, guard, run, raises, pitf_ops, pitf_ops_numpy as pn

RULE = ('third-order shapes with different, equal and unit mode sizes (at times one mode up to 150), 1-40 generated sample positions (repeats and pairs falling on one matrix entry '
        'included), given as lists, arrays or graph tensors; real matrices and vectors; the TensorFlow and the numpy operators against direct '
        'indexing, adjointness as an inner-product identity; centralization, the constraint subspaces and sample lists from many seeds. '
        'Non-trivial: three modes not all of one size with more than one sample.')
CASES = {'quick': 600, 'thorough': 12000}


def strategy(st, tier):
    small = st.lists(st.sampled_from([3, 2, 4, 5, 1, 6, 7]), min_size=3, max_size=3)
    large = st.builds(lambda s, k, d: s[:k] + [d] + s[k + 1:], small, gen.pick(st, 0, 2), gen.pick(st, 20, 150))
    sh = gen.mix(st, (13, small), (1, large))

    def f(s):
        pos = st.tuples(*[gen.pick(st, 0, d - 1) for d in s]).map(list)
        return st.fixed_dictionaries(dict(shape=st.just(s), pos=gen.sized(st, pos, 1, 14), rep=st.sampled_from([1, 1, 1, 2, 3]),
                                          fill=st.sampled_from(['normal', 'index', 'ints', 'big', 'sparse']), seed=gen.seeds(st),
                                          form=st.sampled_from(['list', 'array', 'tensor']), shapeform=st.sampled_from(['tuple', 'list']),
                                          rank=gen.pick(st, 1, 4), many=st.booleans(), tf=st.sampled_from([True, True, False])))
    return sh.flatmap(f)


MODES = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]


def check(case):
    sh = tuple(case['shape'])
    pos = np.array(case['pos'] * case['rep'], dtype=np.int64)
    n = len(pos)
    spl = [pos[:, k] for k in range(3)]
    fill, seed = case['fill'], case['seed']
    mats = [data((sh[i], sh[j]), fill, seed + k, 'float32') for k, (i, j, _) in enumerate(MODES)]
    vec = data((n,), 'normal', seed + 5, 'float32')
    T = data(sh, fill, seed + 6, 'float32')
    what = 'shape %s, samples %s' % (sh, case['pos'][:6])
    f64 = [m.astype('float64') for m in mats]
    want = [f64[k][spl[i], spl[j]] / np.sqrt(sh[l]) for k, (i, j, l) in enumerate(MODES)]
    adj = []
    for k, (i, j, l) in enumerate(MODES):
        M = np.zeros((sh[i], sh[j]))
        np.add.at(M, (spl[i], spl[j]), vec.astype('float64'))
        adj.append(M)
    ref = dict(P=want, A=adj, T=T[spl[0], spl[1], spl[2]], pair=sum(want), C=[m - m.mean(axis=0) for m in f64])
    shape = sh if case['shapeform'] == 'tuple' else list(sh)
    arg = [s.tolist() for s in spl] if case['form'] == 'list' else spl
    with guard('numpy operators, ' + what):
        got = dict(P=[pn.Pomega_mat(arg, f64[k], shape, n, k) for k in range(3)],
                   A=[pn.adjoint_operator(arg, vec.astype('float64'), shape, n, k) for k in range(3)],
                   T=pn.Pomega_tensor(arg, T.astype('float64'), shape, n), pair=pn.Pomega_Pair(arg, *(f64 + [shape, n])),
                   C=[pn.centralization(m) for m in f64])
    compare(got, ref, vec, f64, sh, 'numpy, ' + what, 1e-12)
    lab = ['form=' + case['form'], 'repeated positions' if len(set(map(tuple, pos.tolist()))) < n else 'distinct positions']
    if any(len(set(zip(spl[i].tolist(), spl[j].tolist()))) < n for i, j, l in MODES):
        lab.append('samples sharing a matrix entry')
    if case['tf']:
        k = min(n, 14)
        if k < n:  # the graph is unrolled per sample
            arg = [a[:k] for a in arg]
            spl = [s[:k] for s in spl]
            vec = vec[:k]
            adj = []
            for i, j, l in MODES:
                M = np.zeros((sh[i], sh[j]))
                np.add.at(M, (spl[i], spl[j]), vec.astype('float64'))
                adj.append(M)
            ref = dict(P=[p[:k] for p in want], A=adj, T=ref['T'][:k], pair=ref['pair'][:k], C=ref['C'])

        def build():
            a = [tf.constant(s, dtype=tf.int32) for s in spl] if case['form'] == 'tensor' else arg
            m = [tf.constant(x) for x in mats]
            v = tf.constant(vec)
            for bad in (None, 3):
                raises(ValueError, lambda: pitf_ops.Pomega_mat(a, m[0], shape, k, bad), 'Pomega_mat(dim=%s)' % bad)
                raises(ValueError, lambda: pitf_ops.adjoint_operator(a, v, shape, k, bad), 'adjoint_operator(dim=%s)' % bad)
            return dict(P=[pitf_ops.Pomega_mat(a, m[d], shape, k, d) for d in range(3)],
                        A=[pitf_ops.adjoint_operator(a, v, shape, k, d) for d in range(3)],
                        T=pitf_ops.Pomega_tensor(a, tf.constant(T), k), pair=pitf_ops.Pomega_Pair(a, *(m + [shape, k])),
                        C=[pitf_ops.centralization(x) for x in m])
        compare(run('TensorFlow operators, ' + what, build), ref, vec, f64, sh, 'TensorFlow, ' + what, 3e-6)
        lab.append('TensorFlow')
    lab += random_parts(case, sh)
    return lab


def compare(got, ref, vec, mats, sh, what, tol):
    for k in range(3):
        near(got['P'][k], ref['P'][k], '%s: Pomega_mat(dim=%d)' % (what, k), tol)
        near(got['A'][k], ref['A'][k], '%s: adjoint_operator(dim=%d)' % (what, k), tol, tol * np.sum(np.abs(vec)))
        near(got['C'][k], ref['C'][k], '%s: centralization of matrix %d' % (what, k), 0, tol * (1 + 2 * np.max(np.abs(mats[k]))))
        a = float(np.sum(np.asarray(got['P'][k], dtype='float64') * vec)) * np.sqrt(sh[MODES[k][2]])
        b = float(np.sum(mats[k] * got['A'][k]))
        lim = 10 * tol * (1 + np.max(np.abs(mats[k])) * np.sum(np.abs(vec)))
        ensure(abs(a - b) <= lim, '%s: <P(M), v> is %.9g but <M, P*(v)> is %.9g for dim %d', what, a, b, k)
    exact(np.asarray(got['T'], dtype='float64'), ref['T'].astype('float64'), '%s: Pomega_tensor' % what)
    near(got['pair'], ref['pair'], '%s: Pomega_Pair' % what, tol, tol * sum(np.max(np.abs(p)) for p in ref['P']))


def random_parts(case, sh):
    """what the random generators promise for every draw"""
    r = case['rank']
    num = 40 * max(sh) if case['many'] else 7
    np.random.seed(case['seed'] % 2 ** 32)
    with guard('numpy generators, shape %s, rank %d' % (sh, r)):
        res = {'numpy': (pn.sample3D_rule(sh, num), pn.sample_rule4mat(sh, r, r + 1, r, num),
                         [pn.subspace(sh[:2], r, m) for m in 'ABC'], pn.generate(sh[:2], r), pn.subspace(sh[:2], r))}
    if case['tf']:
        def build():
            tf.set_random_seed(case['seed'] % 1000)
            none = pitf_ops.subspace(sh[:2], r)
            return (pitf_ops.sample3D_rule(sh, num), pitf_ops.sample_rule4mat(sh, r, r + 1, r),
                    [pitf_ops.subspace(sh[:2], r, m) for m in 'ABC'], pitf_ops.generate(sh[:2], r), tf.constant(none))
        res['TensorFlow'] = run('TensorFlow generators, shape %s, rank %d' % (sh, r), build)
    for name, (abc, four, sub, uv, none) in res.items():
        w = '%s generators, shape %s, rank %d' % (name, sh, r)
        tol = 1e-10 if name == 'numpy' else 2e-5
        ensure(len(abc) == 3, '%s: sample3D_rule returns %d lists', w, len(abc))
        for k in range(3):
            ix = np.asarray(abc[k])
            ensure(ix.shape == (num,) and ix.dtype.kind in 'iu', '%s: sample list %d has shape %s, dtype %s', w, k, ix.shape, ix.dtype)
            ensure(ix.min() >= 0 and ix.max() < sh[k], '%s: sample list %d leaves [0, %d): %d..%d', w, k, sh[k], ix.min(), ix.max())
            if case['many']:
                count = np.bincount(ix, minlength=sh[k]) / (num / sh[k])
                ensure(count.min() >= 0.2 and count.max() <= 2.2, '%s: %d samples of mode %d (size %d) are far from uniform: %s times the mean', w, num, k, sh[k], count)
                jx = np.asarray(abc[(k + 1) % 3])
                pairs = len(set(zip(ix.tolist(), jx.tolist())))
                cells = sh[k] * sh[(k + 1) % 3]
                ensure(pairs >= 0.5 * cells * (1 - np.exp(-num / cells)), '%s: %d samples of modes %d and %d (sizes %d and %d) only ever give %d pairs', w,
                       num, k, (k + 1) % 3, sh[k], sh[(k + 1) % 3], pairs)
                ensure(len(set(ix.tolist())) == sh[k], '%s: %d samples of mode %d (size %d) only ever give %s', w, num, k, sh[k],
                       sorted(set(ix.tolist())))
        ensure(not none, '%s: subspace without a mode returns %r', w, none)
        ensure(np.shape(uv[0]) == (sh[0], r) and np.shape(uv[1]) == (sh[1], r), '%s: generate gives %s and %s', w, np.shape(uv[0]), np.shape(uv[1]))
        if case['many']:
            triples, cells = len(set(zip(*[np.asarray(a).tolist() for a in abc]))), float(np.prod(sh))
            ensure(triples >= 0.5 * cells * (1 - np.exp(-num / cells)), '%s: %d samples only ever give %d positions', w, num, triples)
        low = {}
        want = [sh[:2], (sh[1], sh[2]), (sh[2], sh[0])]
        for kind, M, size, rk in ([(m, x, sh[:2], r) for m, x in zip('ABC', sub)] +
                                  [(m, x, s, k) for m, x, s, k in zip('ABC', four, want, (r, r + 1, r))]):
            M = np.asarray(M, dtype='float64')
            ensure(M.shape == tuple(size), '%s: matrix %s has shape %s, expected %s', w, kind, M.shape, tuple(size))
            big = max(1.0, np.max(np.abs(M)))
            col = M.sum(axis=0)
            if kind == 'A':  # equal column sums
                ensure(np.max(np.abs(col - col.mean())) <= tol * big * size[0], '%s: the column sums of A differ: %s', w, col)
            else:
                ensure(np.max(np.abs(col)) <= tol * big * size[0], '%s: the column sums of %s are not zero: %s', w, kind, col)
            s = np.linalg.svd(M - M.mean(axis=0), compute_uv=False)
            ensure(np.all(s[rk:] <= 10 * tol * big * size[0]), '%s: %s minus its column means has rank above %d: %s', w, kind, rk, s)
            full = min(rk, M.shape[0] - 1, M.shape[1])
            if full >= 1 and s[full - 1] <= (1e-13 if name == 'numpy' else 3e-6) * s[0]:
                low.setdefault(kind, []).append((rk, s))
        for kind, l in low.items():  # one draw may come near a lower rank by chance, both do not
            ensure(len(l) < 2, '%s: both matrices %s minus their column means have a rank below that asked for: %s', w, kind, l)
    return ['generators: ' + k for k in res]


def nontrivial(case, labels):
    return len(set(case['shape'])) > 1 and len(case['pos']) > 1
