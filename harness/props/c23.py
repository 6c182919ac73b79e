"""C23: PITF recovery runs the singular value thresholding iteration on one fixed sample"""
import glob
import os

import numpy as np

from harness import gen
from harness.core import data, ensure, near
from harness.sut import tf, guard, case_dir, pitf_ops, Provider, Environment, PITF, PITF_np

RULE = ('third-order tensors (pairwise interaction tensors, dense and sparse ones), 2-24 sampled positions drawn by the code under test, step '
        'sizes below and above the nonexpansive bound, thresholds small and large, 1-150 steps (1-40 of PITF). PITF_np: the sample is identified through a tensor '
        'with distinct entries and the whole iteration is replayed in float64; PITF: the recorded error rate and loss of every step, on the sample '
        'its own generator draws and on a sample handed to it. Non-trivial: at least two steps on a tensor with no singleton mode.')
CASES = {'quick': 420, 'thorough': 6000}


def strategy(st, tier):
    return st.fixed_dictionaries(dict(
        engine=st.sampled_from(['np', 'tf', 'tfgiven', 'np']), shape=st.lists(st.sampled_from([3, 2, 4, 5, 6, 1]), min_size=3, max_size=3),
        kind=st.sampled_from(['pairwise', 'normal', 'ints', 'index', 'sparse1']), seed=gen.seeds(st), n=gen.pick(st, 2, 12), big=st.booleans(),
        steps=st.sampled_from([4, 1, 2, 3, 6, 10, 25, 60, 150]), delta=st.sampled_from([6.0, 1.9, 0.3, 3.0, 12.0, 30.0]), tau=st.sampled_from([0.05, 0.0, 0.01, 0.2, 1.0]),
        vi=st.sampled_from([1, 2, 3, -1]), verbose=st.booleans()))


def tensor(case):
    sh = case['shape']
    if case['kind'] == 'pairwise':
        r = np.random.RandomState(case['seed'] % 2 ** 31)
        a, b, c = r.standard_normal((sh[0], sh[1])), r.standard_normal((sh[1], sh[2])), r.standard_normal((sh[2], sh[0]))
        return a[:, :, None] + b[None, :, :] + c.T[:, None, :]
    T = data(sh, 'ints' if case['kind'] == 'sparse1' else case['kind'], case['seed'])
    if case['kind'] == 'sparse1':
        T = T * (np.abs(T) > 2)
    return T + 0.25  # no sample is all zero


def shrink(M, tau, mean):
    C = M - M.mean(axis=0)
    u, s, vt = np.linalg.svd(C, full_matrices=False)
    out = (u * np.maximum(s - tau, 0)) @ vt
    if mean:
        total = M.sum() / np.sqrt(M.size)
        out = out + np.sign(total) * max(abs(total) - tau, 0) / np.sqrt(M.size)
    return out


MODES = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]


def reference(T, spl, delta, tau, steps):
    sh = T.shape
    e1 = T[spl[0], spl[1], spl[2]]
    y = np.zeros(len(e1))
    hist = []
    for _ in range(steps):
        mats = []
        e2 = 0
        for k, (i, j, l) in enumerate(MODES):
            M = np.zeros((sh[i], sh[j]))
            np.add.at(M, (spl[i], spl[j]), y)
            M = shrink(M, tau, k == 0) / np.sqrt(sh[l])
            mats.append(M)
            e2 = e2 + M[spl[i], spl[j]] / np.sqrt(sh[l])
        e = e1 - e2
        hist.append((np.linalg.norm(e) / np.linalg.norm(e1), np.linalg.norm(e) / np.sqrt(len(e)), np.max(np.abs(y))))
        y = y + delta * e
    return y, mats, hist


def bound(sh, spl):
    """the residual map is nonexpansive for step sizes up to 2 / this"""
    tot = 0
    for i, j, l in MODES:
        M = np.zeros((sh[i], sh[j]))
        np.add.at(M, (spl[i], spl[j]), 1)
        tot += M.max() / sh[l]
    return tot


def check(case):
    os.chdir(case_dir())  # both classes write log files into the working directory
    sh = tuple(case['shape'])
    n = case['n'] * (2 if case['big'] else 1)
    size = float(np.prod(sh))
    steps = case['steps']
    # the arguments are scaled by the classes: delta * n / sqrt(size), tau * sqrt(size)
    worst = sum(n / sh[l] for i, j, l in MODES)
    rel = case['delta'] if steps <= 25 else min(case['delta'], 1.9)  # long runs below the bound only: beyond it they may overflow
    d_arg = rel / worst * np.sqrt(size) / n
    t_arg = case['tau'] / np.sqrt(size)
    delta = d_arg * n / np.sqrt(size)
    tau = t_arg * np.sqrt(size)
    T = tensor(case)
    what = '%s on a %s tensor of shape %s, %d samples, delta %.4g, tau %.4g, %d steps' % (case['engine'], case['kind'], sh, n, delta, tau, steps)
    f = run_np if case['engine'] == 'np' else run_tf
    lab = f(case, sh, T, n, steps, d_arg, t_arg, delta, tau, what)
    return lab + ['engine=' + case['engine'], 'steps=%d' % steps]


def run_np(case, sh, T, n, steps, d_arg, t_arg, delta, tau, what):
    def go(X, k):
        np.random.seed(case['seed'] % 2 ** 32)
        with guard(what), tf.Graph().as_default():
            m = PITF_np(Environment(Provider()))
            a = PITF_np.PITF_np_Args(rank=1, delt=d_arg, tao=t_arg, sample_num=n, steps=k)
            keep = X.copy()
            r = m.exact_recovery(a, X)
            ensure(np.array_equal(keep, X), '%s: the tensor was changed', what)
            ensure(len(r) == 7, '%s: %d results', what, len(r))
            return r
    ident = np.arange(1, T.size + 1, dtype=np.float64).reshape(sh)
    y = np.asarray(go(ident, 1)[0])
    ensure(y.shape == (n,), '%s: the dual vector has shape %s', what, y.shape)
    val = y / delta  # the first step moves the dual vector by delta times the sampled entries
    ix = np.rint(val).astype(int)
    ensure(np.max(np.abs(val - ix)) < 1e-6 * T.size and ix.min() >= 1 and ix.max() <= T.size,
           '%s: after the first step the dual vector over delta, %s, is not made of entries of the tensor', what, val)
    spl = np.unravel_index(ix - 1, sh)
    y, X, Y, Z, If, Ef, Rf = go(T, steps)
    ry, rm, rh = reference(T, spl, delta, tau, steps)
    ensure(list(If) == list(range(steps)), '%s: recorded steps %s', what, If)
    ensure(len(Ef) == steps and len(Rf) == steps, '%s: %d error rates, %d losses', what, len(Ef), len(Rf))
    near(Ef, [h[0] for h in rh], what + ': error rates', 1e-7)
    near(Rf, [h[1] for h in rh], what + ': losses', 1e-7)
    near(y, ry, what + ': dual vector', 1e-7)
    for g, w, name in zip((X, Y, Z), rm, 'XYZ'):
        near(g, w, '%s: matrix %s' % (what, name), 1e-7, 1e-9 * (1 + np.max(np.abs(ry))))
    ensure(Ef[0] == 1 or abs(Ef[0] - 1) < 1e-12, '%s: the first error rate is %r', what, Ef[0])
    return monotone(Ef, sh, spl, delta, what, 1e-9)


def monotone(Ef, sh, spl, delta, what, tol):
    if spl is not None and delta * bound(sh, spl) > 2:
        return ['step size beyond the bound']
    for k in range(1, len(Ef)):
        ensure(Ef[k] <= Ef[k - 1] * (1 + tol) + tol, '%s: the error rate rises from %.9g to %.9g at step %d although the step size is below the bound',
               what, Ef[k - 1], Ef[k], k + 1)
    return ['error rate never rises'] if len(Ef) > 1 else []


def run_tf(case, sh, T, n, steps, d_arg, t_arg, delta, tau, what):
    steps = min(steps, 10) if steps < 60 else min(steps, 40)
    spl = None
    called = []
    rng = np.random.RandomState(case['seed'] % 2 ** 31)
    orig = pitf_ops.sample3D_rule
    if case['engine'] == 'tfgiven':
        n = min(n, 12)
        spl = [rng.randint(0, d, n) for d in sh]
        delta = d_arg * n / np.sqrt(T.size)
        if not np.any(T[spl[0], spl[1], spl[2]]):
            return ['all samples zero']

        def given(*a, **k):
            called.append(1)
            return tuple(tf.constant(s, dtype=tf.int32) for s in spl)
        pitf_ops.sample3D_rule = given
    path = os.path.join(case_dir(), 'sum')
    try:
        with guard(what), tf.Graph().as_default():
            tf.set_random_seed(case['seed'] % 1000)
            p = Provider()
            full = tf.constant(T.astype('float32'))
            p.full_tensor = lambda: full
            m = PITF(Environment(p, summary_path=path))
            m.build_model(PITF.PITF_Args(rank=1, delt=d_arg, tao=t_arg, sample_num=n, validation_internal=case['vi'], verbose=case['verbose']))
            m.train(steps)
            ensure(m.train_finish() is True, '%s: train_finish() is %r after training', what, m.train_finish())
    finally:
        pitf_ops.sample3D_rule = orig
    files = glob.glob(os.path.join(path, '*tfevents*'))
    ensure(len(files) == 1, '%s: %d event files', what, len(files))
    ev = {}
    for e in tf.train.summary_iterator(files[0]):
        for v in e.summary.value:
            name = 'erate' if 'error' in v.tag else 'loss' if 'loss' in v.tag else v.tag
            ensure((e.step, name) not in ev, '%s: %s recorded twice at step %d', what, v.tag, e.step)
            ev[(e.step, name)] = v.simple_value
    vi = case['vi']
    want = sorted(set([1, steps] + [k for k in range(1, steps + 1) if vi > 0 and k % vi == 0]))
    for name in ('erate', 'loss'):
        got = sorted(k for k, s in ev if s == name)
        ensure(got == want, '%s, validation_internal=%d: %s recorded at steps %s, expected %s', what, vi, name, got, want)
    er = np.array([ev[(k, 'erate')] for k in want])
    lo = np.array([ev[(k, 'loss')] for k in want])
    ensure(np.all(np.isfinite(er)) or delta * 1e9 > 1 and er[0] == er[0], '%s: error rates %s', what, er)
    ensure(abs(er[0] - 1) < 1e-5, '%s: the first error rate is %.9g', what, er[0])
    # loss / error rate = |sampled data| / sqrt(n): the same at every step of one sample
    for k in range(len(want)):
        if er[k] > 1e-3:
            ensure(abs(lo[k] / er[k] - lo[0]) <= 1e-3 * lo[0], '%s: loss/error rate is %.7g at step 1 but %.7g at step %d: the sampled data changed',
                   what, lo[0], lo[k] / er[k], want[k])
    lab = []
    if spl is not None and called:
        spl = [np.asarray(s) for s in spl]
        e1 = T[spl[0], spl[1], spl[2]]
        near(lo[0], np.linalg.norm(e1) / np.sqrt(n), '%s: first loss against the RMS of the sampled entries' % what, 1e-5)
        ry, rm, rh = reference(T, spl, delta, tau, steps)
        scale = max([h[0] for h in rh])
        for k, s in enumerate(want):
            if scale < 50:
                ensure(abs(er[k] - rh[s - 1][0]) <= 2e-4 * max(1, scale), '%s: error rate %.7g at step %d, replaying the iteration gives %.7g', what,
                       er[k], s, rh[s - 1][0])
        lab = monotone(er, sh, spl, delta, what, 1e-4) + ['iteration replayed']
    elif case['delta'] <= 1.9 or case['steps'] > 25:
        lab = monotone(er, sh, None, delta, what, 1e-4)
    return lab


def nontrivial(case, labels):
    return case['steps'] > 1 and min(case['shape']) > 1
