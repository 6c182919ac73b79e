"""C14: HOOI improves on HOSVD by optimal mode-wise updates"""
import numpy as np

from harness import models
from harness.core import ensure, fro, near, ttm, unf
from harness.props.c13 import check_orthonormal

RULE = ('HOOI of a 2- to 5-mode tensor for 1 to 12 steps (the iterate observed while training runs, or by training 1, 2, ... k steps from the same start); each '
        "sweep is compared with a reference sweep from the previous step's factors, the first from the HOSVD start. Non-trivial: at least "
        'two modes with rank below their size.')
CASES = {'quick': 1000, 'thorough': 8000}


def strategy(st, tier):
    return models.model_case(st, ['hooi'], maxsize=400, maxrank=5, hi=5, maxdim=7, large=12).flatmap(
        lambda c: st.fixed_dictionaries(dict({k: st.just(v) for k, v in c.items()}, steps=st.sampled_from([3, 2, 1, 4, 6, 8, 12]), prefixes=st.sampled_from([False, False, False, True]))))


def leading(M, r):
    u, s, _ = np.linalg.svd(M, full_matrices=False)
    return u[:, :r], s


def check(case):
    kind, X, ranks, fill = models.setup(case)
    K = case['steps']
    what = models.describe(kind, X, ranks, K)
    rs = models.fit_steps(kind, X, ranks, K, case['gseed'], tol=0.0, prefixes=case['prefixes'] and K <= 8)
    ensure(rs is not None, '%s: two trainings of one model take different paths', what)
    X = X.astype('float64')
    norm = fro(X)
    N = X.ndim
    start = [leading(unf(X, n), ranks[n])[0] for n in range(N)]
    proj = ttm(ttm(X, start, tr=True), start)
    hosvd_err = fro(X - proj)
    lab = []
    # a singular-value tie at the cut makes the starting subspace a choice
    cut = False
    for n in range(N):
        s = np.linalg.svd(unf(X, n), compute_uv=False)
        if ranks[n] < len(s) and s[ranks[n] - 1] - s[ranks[n]] < 1e-3 * s[0]:
            cut = True
    prev = start
    last = None
    for k, r in enumerate(rs, 1):
        w = '%s, step %d' % (what, k)
        models.check_shapes(r, X, ranks, w)
        ensure(len(r.hist) == k, '%s: %d history entries', w, len(r.hist))
        F = [f.astype('float64') for f in r.factors]
        check_orthonormal(F, w)
        core = ttm(X, F, tr=True)
        near(r.core, core, '%s: core against the data projected on the factors' % w, 0, 1e-5 * norm)
        near(r.full, ttm(core, F), '%s: full against the projection of the data' % w, 0, 2e-5 * norm)
        if not (k == 1 and cut):
            for m in range(N):
                Y = unf(ttm(X, [F[i] if i < m else prev[i] for i in range(N)], skip=m, tr=True), m)
                s = np.linalg.svd(Y, compute_uv=False)
                best = np.sum(s[:ranks[m]] ** 2)
                got = fro(F[m].T @ Y) ** 2
                ensure(abs(got - best) <= 5e-5 * norm ** 2, '%s: factor %d keeps energy %.8g of the projected unfolding, its leading singular '
                       'vectors keep %.8g', w, m, got, best)
                e = np.linalg.norm(Y.T @ F[m], axis=0)
                near(e, s[:ranks[m]], '%s: energies of the columns of factor %d' % (w, m), 0, 5e-5 * norm)
        rel = r.hist[-1][1]
        err = fro(X - r.full)
        if not cut:
            ensure(err <= hosvd_err + 5e-5 * norm, '%s: error %.7g is worse than that of HOSVD, %.7g', w, err, hosvd_err)
        if last is not None:
            ensure(rel <= last + 2e-5, '%s: the relative residual rises from %.8g to %.8g', w, last, rel)
        last = rel
        prev = F
    if cut:
        lab.append('start not unique')
    lab += ['order=%d' % N, 'steps=%d' % K, 'improves on HOSVD' if rs[-1].hist[-1][1] * norm < hosvd_err - 1e-4 * norm else 'as good as HOSVD']
    return lab


def nontrivial(case, labels):
    return sum(r < d for r, d in zip(case['ranks'], case['shape'])) >= 2
