"""C15: CP_ALS sweeps are least-squares updates with max-normalised columns"""
import numpy as np

from harness import models
from harness.core import ensure, fro, kr, near, unf

RULE = ('CP_ALS of a 2- to 5-mode tensor (signed, sparse, integer, non-negative; rank from 1 to above the mode sizes) for 1-15 steps, factors '
        'observed after every step; each sweep is compared with a float64 Gauss-Seidel sweep of least-squares updates from the previous factors, '
        'wherever the normal equations are well enough conditioned to be decided in float32, and the last update always against the '
        'truncated least-squares optimum. Non-trivial: at least two modes of size >= 2 and a compared sweep.')
CASES = {'quick': 1100, 'thorough': 10000}


def strategy(st, tier):
    return models.model_case(st, ['cp'], maxsize=400, maxrank=5, hi=5, maxdim=7, large=12).flatmap(
        lambda c: st.fixed_dictionaries(dict({k: st.just(v) for k, v in c.items()}, steps=st.sampled_from([3, 2, 1, 4, 6, 8, 15]), prefixes=st.sampled_from([False, False, False, True]))))


def check(case):
    kind, X, ranks, fill = models.setup(case)
    K = case['steps']
    what = models.describe(kind, X, ranks, K)
    rs = models.fit_steps(kind, X, ranks, K, case['gseed'], tol=0.0, prefixes=case['prefixes'] and K <= 8)
    ensure(rs is not None, '%s: two trainings of one model take different paths', what)
    X = X.astype('float64')
    norm = fro(X)
    N = X.ndim
    lab = set(['order=%d' % N, 'steps=%d' % K])
    prev = None
    last = None
    for k, r in enumerate(rs, 1):
        w = '%s, step %d' % (what, k)
        models.check_coherent(r, X, ranks, w)
        ensure(len(r.hist) == k, '%s: %d history entries', w, len(r.hist))
        lam = r.lambdas.reshape(-1).astype('float64')
        F = [f.astype('float64') for f in r.factors]
        ensure(np.all(lam >= 0), '%s: weights %s', w, lam)
        for i, f in enumerate(F):
            near(np.max(np.abs(f), axis=0), np.ones(ranks[0]), '%s: largest magnitudes of the columns of factor %d' % (w, i), 0, 1e-5)
        good = True
        for m in range(N):
            if prev is None and m < N - 1:
                good = False
                continue  # the first sweep starts from random factors nobody can see
            oth = [F[i] if i < m else prev[i] for i in range(N) if i != m]
            Z = kr(oth[::-1])
            s = np.linalg.svd(Z, compute_uv=False)
            s = np.concatenate([s, np.zeros(max(0, ranks[0] - len(s)))])
            M = unf(X, m)
            if s[-1] < 1.5e-2 * s[0]:
                good = False
                lab.add('update with ill-conditioned normal equations')
                continue
            B = np.linalg.lstsq(Z, M.T, rcond=None)[0].T
            tol = 1e-5 * norm * (s[0] / s[-1]) / s[-1]
            bl = np.max(np.abs(B), axis=0)
            if m == N - 1:
                near(lam, bl, '%s: weights against the column magnitudes of the last least-squares update' % w, 0, tol)
            for c in range(ranks[0]):
                if tol > 0.02 * bl[c]:
                    good = good and m == N - 1
                    continue
                near(F[m][:, c], B[:, c] / bl[c], '%s: column %d of factor %d against the least-squares update' % (w, c, m), 0, 2.5 * tol / bl[c])
                lab.add('compared: first' if k == 1 else 'compared: later')
        # the last update minimises the residual over its factor, up to the directions float32 cannot resolve
        Z = kr(F[:-1][::-1])
        u, s, _ = np.linalg.svd(Z, full_matrices=False)
        slack = 1e-3 + 3e-5 * s[0] / s[s > 3e-4 * s[0]][-1]
        u = u[:, s > 3e-2 * s[0]]
        M = unf(X, N - 1).T
        opt = fro(M - u @ (u.T @ M))
        rel = r.hist[-1][1]
        ensure(rel * norm <= opt + slack * norm, '%s: residual %.7g, solving for the last factor gives %.7g', w, rel * norm, opt)
        if last is not None and good:
            ensure(rel <= np.sqrt(last ** 2 + 1e-6) + 2e-5, '%s: the relative residual rises from %.8g to %.8g', w, last, rel)
            lab.add('monotone')
        last, prev = rel, F
    return sorted(lab)


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and any(l.startswith('compared') for l in labels)
