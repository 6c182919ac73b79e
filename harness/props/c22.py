"""C22: shrinkage and cone projection are the proximal maps the PITF algorithm needs"""
import numpy as np

from harness import gen
from harness.core import data, ensure, near
from harness.sut import tf, guard, run, pitf_ops, pitf_ops_numpy as pn

RULE = ('matrices of 1-7 (at times up to 40) rows and columns (dense, sparse, rank one, constant, with large mean) with thresholds from 0 to beyond the largest '
        'singular value, in the TensorFlow and the numpy version, against a float64 reference; the shrinkage also through its optimality '
        'condition; vectors and heights on, inside, outside and opposite the cone. Non-trivial: a rectangular or larger than 1x1 matrix with a threshold that cuts '
        'some but not all singular values.')
CASES = {'quick': 2400, 'thorough': 40000}


def strategy(st, tier):
    return st.fixed_dictionaries(dict(
        rows=gen.mix(st, (15, st.sampled_from([3, 4, 2, 5, 6, 7, 1])), (1, gen.pick(st, 8, 40))), cols=gen.mix(st, (15, st.sampled_from([3, 4, 2, 5, 6, 7, 1])), (1, gen.pick(st, 8, 40))),
        fill=st.sampled_from(['normal', 'ints', 'unit', 'sparse', 'index', 'shifted', 'neg', 'normal', 'const', 'rank1', 'zeros']), seed=gen.seeds(st),
        tau=st.sampled_from([0.3, 0.1, 0.2, 0.0, 0.05, 0.6, 0.9, 0.999, 1.0, 1.5]), rel=st.sampled_from(['sigma', 'mid', 'sum', 'mid']), mode=st.sampled_from(['normal', 'complicated']),
        n=gen.pick(st, 1, 6), xfill=st.sampled_from(['normal', 'zeros', 'ints', 'sparse']), t=st.sampled_from([0.5, 0.0, -0.5, 1.0, -1.0, 1.5, -1.5, 0.99, -0.99])))


def matrix(case):
    sh = (case['rows'], case['cols'])
    if case['fill'] == 'rank1':
        r = np.random.RandomState(case['seed'] % 2 ** 31)
        return np.outer(r.standard_normal(sh[0]), r.standard_normal(sh[1])).astype('float32')
    if case['fill'] == 'shifted':
        return (data(sh, 'normal', case['seed']) + 5).astype('float32')
    return data(sh, case['fill'], case['seed'], 'float32')


def check(case):
    M = matrix(case)
    m = M.astype('float64')
    C = m - m.mean(axis=0)
    u, s, vt = np.linalg.svd(C, full_matrices=False)
    total = m.sum() / np.sqrt(m.size)
    tau = float(np.float32(case['tau'] * (s[0] if case['rel'] == 'sigma' else abs(total))))
    if case['rel'] == 'mid' and len(s) > 1:  # between two singular values
        k = int(100 * case['tau']) % (len(s) - 1)
        tau = float(np.float32((s[k] + s[k + 1]) / 2))
    st_ = np.maximum(s - tau, 0)
    core = (u * st_) @ vt
    extra = np.sign(total) * max(abs(total) - tau, 0) / np.sqrt(m.size)
    want = core + (extra if case['mode'] == 'complicated' else 0)
    what = '%s matrix %dx%d, threshold %.6g, mode %s' % (case['fill'], M.shape[0], M.shape[1], tau, case['mode'])
    big = np.sqrt(np.sum(m ** 2))
    x = data((case['n'],), case['xfill'], case['seed'] + 1, 'float32')
    nx = float(np.linalg.norm(x.astype('float64')))
    t = float(np.float32(case['t'] * (nx if nx > 0 else 1.0)))

    with guard('numpy, ' + what):
        gotn = pn.shrink(m.copy(), tau, mode=case['mode'])
        keep = m.copy()
        un, sn, vn = pn.SVT(keep, tau)
        cx, ct = pn.cone_projection_operator(x.astype('float64'), t)
    ensure(np.array_equal(keep, m), 'numpy SVT changed its argument (%s)', what)
    verify(gotn, un, sn, np.asarray(vn).T, want, core, st_, m, big, 1e-11, 'numpy, ' + what)
    cone(cx, ct, x, t, 1e-11, 'numpy cone_projection_operator(x=%s, t=%r)' % (x, t))

    def build():
        a = tf.constant(M)
        return (pitf_ops.shrink(a, tau, mode=case['mode']), pitf_ops.SVT(a, tau), pitf_ops.cone_projection_operator(tf.constant(x), tf.constant(t)))
    gott, (s2, u2, v2), (cx, ct) = run('TensorFlow, ' + what, build)
    verify(gott, u2, s2, v2, want, core, st_, m, big, 2e-5, 'TensorFlow, ' + what)
    cone(cx, ct, x, t, 1e-5, 'TensorFlow cone_projection_operator(x=%s, t=%r)' % (x, t))
    near(gott, gotn, 'TensorFlow shrink against numpy shrink, ' + what, 0, 2e-5 * big)
    k = int(np.sum(st_ > 1e-6 * (s[0] + 1e-30)))
    return ['mode=' + case['mode'], 'singular values kept: %s' % ('none' if k == 0 else 'all' if k == int(np.sum(s > 1e-6 * (s[0] + 1e-30))) else 'some'),
            'mean component ' + ('kept' if extra else 'removed'), 'cone: ' + ('inside' if nx <= t else 'polar' if t <= -nx else 'between')]


def verify(got, u, s, v, want, core, st_, m, big, tol, what):
    near(got, want, what + ': shrink', 0, tol * big)
    near(s, st_, what + ': thresholded singular values', 0, tol * big)
    u, v = np.asarray(u, dtype='float64'), np.asarray(v, dtype='float64')
    ensure(u.shape == (m.shape[0],) * 2 and v.shape == (m.shape[1],) * 2, '%s: SVT gives U %s and V %s', what, u.shape, v.shape)
    near(u.T @ u, np.eye(len(u)), what + ': UᵀU', 0, 10 * tol)
    near(v.T @ v, np.eye(len(v)), what + ': VᵀV', 0, 10 * tol)
    k = len(s)
    near((u[:, :k] * s) @ v[:, :k].T, core, what + ': U diag(s) Vᵀ', 0, tol * big)


def cone(px, pt, x, t, tol, what):
    """the nearest point of {(x, t): |x| <= t}, recognised by its optimality conditions"""
    x = x.astype('float64')
    px = np.broadcast_to(np.asarray(px, dtype='float64'), x.shape)
    pt = float(np.asarray(pt))
    lim = tol * (1 + np.linalg.norm(x) + abs(t))
    n = np.linalg.norm(px)
    ensure(np.all(np.isfinite(px)) and np.isfinite(pt), '%s: gives %s, %r', what, px, pt)
    ensure(n <= pt + lim, '%s: (%s, %.8g) is outside the cone', what, px, pt)
    rx, rt = x - px, t - pt
    ensure(np.linalg.norm(rx) <= -rt + lim, '%s: the remainder (%s, %.8g) is not in the polar cone, so a nearer point exists', what, rx, rt)
    ensure(abs(float(rx @ px) + rt * pt) <= lim * (1 + np.linalg.norm(x) + abs(t)), '%s: the remainder is not orthogonal to the projection', what)


def nontrivial(case, labels):
    return 'singular values kept: some' in labels
