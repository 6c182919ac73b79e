"""C13: HOSVD truncates every mode to its leading singular subspace"""
import numpy as np

from harness import models
from harness.core import ensure, fro, near, ttm, unf

RULE = ('HOSVD of a 2- to 5-mode tensor (dense, sparse, integer, constant, exactly low rank, repeated singular values) at generated ranks, checked '
        'against float64 singular values of every unfolding. Non-trivial: at least two modes of size >= 2 and some rank below its mode size.')
CASES = {'quick': 2500, 'thorough': 25000}


def strategy(st, tier):
    big = tier == 'thorough'
    return models.model_case(st, ['hosvd'], maxsize=1500 if big else 600, maxrank=8, hi=5, maxdim=9, large=12).flatmap(
        lambda c: st.fixed_dictionaries(dict({k: st.just(v) for k, v in c.items()}, special=st.sampled_from([0] * 7 + [1, 2, 3]))))


def check_orthonormal(F, what):
    for i, f in enumerate(F):
        f = f.astype('float64')
        near(f.T @ f, np.eye(f.shape[1]), '%s: the Gram matrix of factor %d' % (what, i), 0, 2e-5)


def special_data(case):
    sh = case['shape']
    rng = np.random.RandomState(case['dseed'] % 2 ** 31)
    if case['special'] == 1:  # exactly low multilinear rank
        low = [1 + int(rng.randint(d)) for d in sh]
        return ttm(rng.standard_normal(low), [rng.standard_normal((d, r)) for d, r in zip(sh, low)])
    if case['special'] == 2:  # repeated singular values
        X = np.zeros(sh)
        for i in range(min(sh)):
            X[(i,) * len(sh)] = 2.0
        return X
    return np.full(sh, 3.0)


def check(case):
    kind, X, ranks, fill = models.setup(case)
    if case['special']:
        X = special_data(case)
    what = models.describe(kind, X, ranks, 1)
    r = models.fit(kind, X, ranks, 1, case['gseed'], style=case['style'])
    models.check_shapes(r, X, ranks, what)
    X = X.astype('float64')
    norm = fro(X)
    check_orthonormal(r.factors, what)
    tails = []
    for n in range(X.ndim):
        M = unf(X, n)
        s = np.linalg.svd(M, compute_uv=False)
        got = np.linalg.norm(M.T @ r.factors[n].astype('float64'), axis=0)
        near(got, s[:ranks[n]], '%s: mode-%d energies of the columns, against the leading singular values' % (what, n), 0, 2e-5 * s[0])
        tails.append(np.sum(s[ranks[n]:] ** 2))
    core = ttm(X, r.factors, tr=True)
    near(r.core, core, '%s: core against the data projected on the factors' % what, 0, 1e-5 * norm)
    near(r.full, ttm(core, r.factors), '%s: full against the projection of the data' % what, 0, 2e-5 * norm)
    err = fro(X - r.full)
    ensure(err <= np.sqrt(sum(tails)) + 3e-5 * norm, '%s: error %.6g exceeds the truncation bound %.6g', what, err, np.sqrt(sum(tails)))
    ensure(err >= np.sqrt(max(tails)) - 3e-5 * norm, '%s: error %.6g is below the best possible %.6g', what, err, np.sqrt(max(tails)))
    lab = ['order=%d' % X.ndim]
    if sum(tails) <= 1e-12 * norm ** 2:
        ensure(err <= 3e-5 * norm, '%s: data of that rank is reproduced with error %.3g (norm %.3g)', what, err, norm)
        lab.append('exact: full ranks' if list(ranks) == list(X.shape) else 'exact: the data has this rank')
    else:
        lab.append('truncating')
    return lab


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and any(r < d for r, d in zip(case['ranks'], case['shape']))
