"""C06: operations neither change their arguments nor remember earlier calls"""
from functools import reduce

import numpy as np

from harness import gen
from harness.core import data, near, unf, kr, kron, ttm, mode_mul, cp_full, ensure
from harness.sut import ops, tf, guard, DTensor, KTensor, TTensor, loss, pitf_ops, pitf_ops_numpy

RULE = ('a history of 3-9 steps, operations (matricizations, contractions, products, extraction, losses, DTensor methods) that share one '
        'set of argument objects (axis lists, skip list, shape list, matrix lists, arrays); after each call every argument is compared '
        'with its original, and each result with the value for pristine arguments. Non-trivial: at least three '
        'calls of which two take the same list object. Between the calls the caller may edit these objects in place (other axes, '
        'other skips, another matrix in a list, other array contents), after which calls must give the value for the new contents.')
CASES = {'quick': 3200, 'thorough': 40000}
OPS = ['t2mat_int', 't2mat_list', 't2mat_infer', 'd_t2mat', 'mul', 'd_mul', 'ttm_axis', 'ttm_skip', 'ttm_all', 'khatri', 'kron',
       'hadamard', 'fold', 'vec', 'ktensor', 'ttensor', 'unfold', 'd_unfold', 'losses', 'maxsv', 'inner', 'd_arith',
       'khatri_all', 'kron_all', 'hadamard_all', 'maxsv_all', 'rmse_nz', 'd_kron', 'p_shrink', 'p_adjoint', 'p_pomega', 'p_center', 'p_cone',
       'tf_shrink', 'tf_pomega']
EDITS = ['edit_axes', 'edit_skip', 'edit_matrix', 'edit_array']


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            shape=st.just(sh), perm=gen.perms(st, n), skip=gen.subset(st, n, 0, n - 1), perm2=gen.perms(st, n), skip2=gen.subset(st, n, 0, n - 1), R=gen.pick(st, 1, 4),
            prog=gen.sized(st, st.tuples(st.sampled_from(OPS + EDITS * 2), gen.pick(st, 0, n - 1), st.booleans()).map(list), 3, 9),
            seed=gen.seeds(st), nparr=st.booleans()))
    return gen.shapes(st, 2, 4, 4, 200).flatmap(f)


def shrunk(M, t, complicated):
    u, s, v = np.linalg.svd(M - M.mean(axis=0), full_matrices=False)
    out = (u * np.maximum(0, s - t)) @ v
    if complicated:
        d = M.sum() / np.sqrt(M.size)
        out = out + np.sign(d) * max(0, abs(d) - t) / np.sqrt(M.size)
    return out


def check(case):
    sh, n, R, seed = case['shape'], len(case['shape']), case['R'], case['seed']
    X = data(sh, 'ints', seed)
    Y = data(sh, 'normal', seed + 1)
    factors = [data([d, R], 'ints', seed + 10 + i) for i, d in enumerate(sh)]
    square = [data([d, d], 'ints', seed + 20 + i) for i, d in enumerate(sh)]
    core = data([R] * n, 'ints', seed + 30)
    same = [data([3, 2], 'ints', seed + 40 + i) for i in range(n)]
    lam = data([R], 'ints', seed + 50)
    perm = list(case['perm'])
    kfac = list(factors)  # what the Kruskal and Tucker tensors are made of; not edited
    # a sampled pair of modes for the PITF operators
    pshape = [sh[0], sh[1], 2]
    pm = data(sh[:2], 'normal', seed + 60)
    rng = np.random.RandomState(seed % 9973)
    spl = [rng.randint(0, d, 4) for d in pshape]
    pv = data([4], 'normal', seed + 61)
    arrays = [X, Y, core, lam, pm, pv] + spl + factors + square + same
    originals = [a.copy() for a in arrays]
    # the shared argument objects
    with guard('building the arguments'), tf.Graph().as_default() as graph:
        tX, tY = tf.constant(X), tf.constant(Y)
        L = dict(r=list(perm[:-1]), c=[perm[-1]], all=list(perm), skip=list(case['skip']), shape=list(sh), none=[],
                 fac=[tf.constant(f) for f in factors], sq=[tf.constant(f) for f in square], same=[tf.constant(f) for f in same],
                 kfac=[tf.constant(f) for f in factors], npfac=list(factors), spl=list(spl), pshape=list(pshape))
        before = {k: list(v) for k, v in L.items()}
        D = DTensor(X if case['nparr'] else tX)
        KT = KTensor(L['npfac'] if case['nparr'] else L['kfac'], lam if case['nparr'] else tf.constant(lam))
        TT = TTensor(core if case['nparr'] else tf.constant(core), L['npfac'] if case['nparr'] else L['kfac'])
        got, want, names = [], [], []
        sk = list(case['skip'])
        keep = lambda l: [m for i, m in enumerate(l) if i not in sk]
        for step, (name, k, flag) in enumerate(case['prog']):
            if name in EDITS:  # the caller's own edits, in place
                if name == 'edit_axes':
                    perm = list(case['perm2'] if perm == list(case['perm']) else case['perm'])
                    L['r'][:], L['c'][:], L['all'][:] = perm[:-1], [perm[-1]], perm
                elif name == 'edit_skip':
                    sk = list(case['skip2'] if sk == list(case['skip']) else case['skip'])
                    L['skip'][:] = sk
                elif name == 'edit_matrix':
                    for key, mats in (('same', same), ('sq', square), ('fac', factors)):
                        mats[k] = data(mats[k].shape, 'ints', seed + 1000 + 10 * step)
                        L[key][k] = tf.constant(mats[k])
                        arrays.append(mats[k])
                        originals.append(mats[k].copy())
                else:
                    pm *= -0.5
                    pv += 1.0
                    spl[k % 3][:] = spl[k % 3][::-1].copy()
                    for i, a in enumerate(arrays):
                        if a is pm or a is pv or a is spl[k % 3]:
                            originals[i] = a.copy()
                before = {key: list(v) for key, v in L.items()}
                continue
            what = 'step %d: %s' % (step + 1, name)
            with guard(what):
                if name == 't2mat_int':
                    g = ops.t2mat(tX, L['r'], perm[-1])
                    w = X.transpose(perm).reshape(-1, sh[perm[-1]])
                elif name == 't2mat_list':
                    g = ops.t2mat(tX, L['r'], L['c'])
                    w = X.transpose(perm).reshape(-1, sh[perm[-1]])
                elif name == 't2mat_infer':
                    g = ops.t2mat(tX, L['r'], -1)
                    w = X.transpose(perm).reshape(-1, sh[perm[-1]])
                elif name == 'd_t2mat':
                    g = D.t2mat(L['r'], perm[-1] if flag else L['c']).T
                    w = X.transpose(perm).reshape(-1, sh[perm[-1]])
                elif name in ('mul', 'd_mul'):
                    ax = L['r'] if flag else L['all']
                    g = ops.mul(tX, tY, ax, ax) if name == 'mul' else D.mul(DTensor(tY), ax, ax).T
                    w = np.tensordot(X, Y, (list(perm[:-1]) if flag else list(perm),) * 2)
                elif name == 'ttm_axis':
                    mats = [L['sq'][i] for i in perm]
                    g = ops.ttm(tX, mats, axis=L['all'], transpose=flag)
                    w = ttm(X, square, tr=flag)
                elif name == 'ttm_skip':
                    g = ops.ttm(tX, L['sq'], skip_matrices_index=L['skip'], transpose=flag)
                    w = X
                    for i in range(n):
                        if i not in sk:
                            w = mode_mul(w, square[i].T if flag else square[i], i)
                elif name == 'ttm_all':
                    g = ops.ttm(tX, L['sq'], transpose=flag)
                    w = ttm(X, square, tr=flag)
                elif name == 'khatri':
                    g = ops.khatri(L['fac'], L['skip'], flag)
                    w = kr(keep(factors)[::-1] if flag else keep(factors))
                elif name == 'kron':
                    g = ops.kron(L['same'], L['skip'], flag)
                    w = kron(keep(same)[::-1] if flag else keep(same))
                elif name == 'hadamard':
                    g = ops.hadamard(L['same'], L['skip'] if flag else k if n > 1 else None)
                    w = reduce(np.multiply, keep(same) if flag else [m for i, m in enumerate(same) if i != k])
                elif name == 'fold':
                    g = ops.fold(tf.constant(unf(X, k)), k, L['shape']) if flag else \
                        DTensor.fold(tf.constant(unf(X, k)), k, L['shape']).T
                    w = X
                elif name == 'vec':
                    g = ops.vec_to_tensor(ops.vectorize(tX), L['shape'])
                    w = X
                elif name == 'ktensor':
                    g = KT.extract()
                    w = cp_full(kfac, lam)
                elif name == 'ttensor':
                    g = TT.extract()
                    w = ttm(core, kfac)
                elif name == 'unfold':
                    g = ops.unfold(tX, k)
                    w = unf(X, k)
                elif name == 'd_unfold':
                    g = D.unfold(k).T
                    w = unf(X, k)
                elif name == 'losses':
                    g = loss.l2(tX, tY) if flag else loss.rmse(tX, tY)
                    w = 0.5 * np.sum((X - Y) ** 2) if flag else np.sqrt(np.mean((X - Y) ** 2))
                elif name == 'maxsv':
                    g = ops.max_single_value_mul(L['same'], L['skip'])
                    w = np.prod([np.linalg.norm(m, 2) for m in keep(same)])
                elif name == 'khatri_all':
                    g = ops.khatri(L['fac'], reverse=flag)
                    w = kr(factors[::-1] if flag else factors)
                elif name == 'kron_all':
                    g = ops.kron(L['same'], reverse=flag)
                    w = kron(same[::-1] if flag else same)
                elif name == 'hadamard_all':
                    g = ops.hadamard(L['same'])
                    w = reduce(np.multiply, same)
                elif name == 'maxsv_all':
                    g = ops.max_single_value_mul(L['same'])
                    w = np.prod([np.linalg.norm(m, 2) for m in same])
                elif name == 'rmse_nz':
                    g = loss.rmse_ignore_zero(tX, tY)
                    w = np.sqrt(np.sum(((X - Y) * (X != 0)) ** 2) / np.sum(X != 0)) if np.any(X) else None
                elif name == 'd_kron':
                    g = DTensor(L['same'][0]).kron(DTensor(L['same'][-1]) if flag else L['same'][-1]).T
                    w = np.kron(same[0], same[-1])
                elif name == 'p_shrink':
                    g = tf.constant(pitf_ops_numpy.shrink(pm, 0.3, mode='complicated' if flag else 'normal'))
                    w = shrunk(pm, 0.3, flag)
                elif name == 'p_adjoint':
                    g = tf.constant(pitf_ops_numpy.adjoint_operator(L['spl'], pv, L['pshape'], 4, 0))
                    w = np.zeros(pshape[:2])
                    np.add.at(w, (spl[0], spl[1]), pv)
                elif name == 'p_pomega':
                    g = tf.constant(pitf_ops_numpy.Pomega_mat(L['spl'], pm, L['pshape'], 4, 0))
                    w = pm[spl[0], spl[1]] / np.sqrt(2)
                elif name == 'p_center':
                    g = tf.constant(pitf_ops_numpy.centralization(pm))
                    w = pm - pm.mean(axis=0)
                elif name == 'p_cone':
                    t = 0.5 * np.linalg.norm(pv)
                    g = tf.constant(pitf_ops_numpy.cone_projection_operator(pv, t)[0])
                    w = 0.75 * pv
                elif name == 'tf_shrink':
                    g = pitf_ops.shrink(tf.constant(pm.astype('float32')), 0.3, mode='complicated' if flag else 'normal')
                    w = shrunk(pm.astype('float32').astype('float64'), 0.3, flag)
                elif name == 'tf_pomega':
                    g = pitf_ops.Pomega_mat(L['spl'], tf.constant(pm), L['pshape'], 4, 0)
                    w = pm[spl[0], spl[1]] / np.sqrt(2)
                elif name == 'inner':
                    g = ops.inner(tX, tY)
                    w = np.sum(X * Y)
                else:
                    g = (D + D if flag else D * D).T
                    w = X + X if flag else X * X
            for key, old in before.items():
                now = L[key]
                ok = len(now) == len(old) and all(a is b or (isinstance(b, int) and isinstance(a, int) and a == b)
                                                  for a, b in zip(now, old))
                ensure(ok, '%s changed its argument list %r: was %r, now %r', what, key, old if len(old) < 9 else len(old), now)
            got.append(g)
            want.append(w)
            names.append(what)
        with guard('evaluating %s' % [p[0] for p in case['prog']]), tf.Session(graph=graph) as s:
            got1 = s.run(got)
            got2 = s.run(got[::-1])[::-1]
    for a, b, w, nm in zip(got1, got2, want, names):
        if w is None:
            continue
        tol = 1e-9 if np.asarray(a).dtype == np.float64 else 1e-4
        near(a, w, nm, tol, tol)
        near(b, w, nm + ' (evaluated again)', tol, tol)
    for a, o in zip(arrays, originals):
        ensure(a.shape == o.shape and a.dtype == o.dtype and np.array_equal(a, o), 'an input array was changed: %s -> %s', o, a)
    lab = ['calls=%d' % len(names)] + ['op=' + p[0] for p in case['prog']]
    if case['nparr']:
        lab.append('ndarray arguments')
    if any(p[0] in EDITS for p in case['prog']):
        lab.append('edited in place')
    if len(names) >= 3:
        lab.append('three or more calls')
    return lab


def nontrivial(case, labels):
    names = [p[0] for p in case['prog'] if p[0] not in EDITS]
    return len(names) >= 3 and len(set(names)) >= 2
