"""C26: data of the model's own rank is recovered"""
import numpy as np

from harness import gen, models
from harness.core import cp_full, ensure, fro, ttm

RULE = ('tensors that are exactly of the fitted rank: HOSVD and HOOI on data of the requested multilinear rank, CP_ALS, NCP_BCU and NTUCKER_BCU on '
        'rank-one data (signed for CP, non-negative for the others), 2-5 modes, any scale, any number of steps that suffices; the '
        'reconstruction must equal the data. Non-trivial: at least two modes of size >= 2.')
CASES = {'quick': 1500, 'thorough': 15000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            kind=st.sampled_from(models.ALL), shape=st.just(sh), ranks=st.lists(gen.dims(st, 4), min_size=n, max_size=n), seed=gen.seeds(st),
            gseed=st.integers(0, 10 ** 6), scale=st.sampled_from([1.0, 100.0, 1e-2, 1e4]), steps=gen.pick(st, 1, 6), style=gen.pick(st, 0, 1),
            zero=st.booleans(), dtype=st.sampled_from(['float64', 'float32'])))
    return gen.shapes(st, 2, 5, 7, 500).flatmap(f)


def check(case):
    kind, sh = case['kind'], case['shape']
    n = len(sh)
    rng = np.random.RandomState(case['seed'] % 2 ** 31)
    steps = case['steps']
    if kind in ('hosvd', 'hooi'):
        ranks = models.clamp_ranks('hooi', sh, case['ranks'])
        F = [np.linalg.qr(rng.standard_normal((d, r)))[0] for d, r in zip(sh, ranks)]
        X = ttm(rng.standard_normal(ranks), F)
    else:
        ranks = [1] * n
        v = [rng.random_sample(d) + 0.1 for d in sh]
        if kind == 'cp':
            v = [a * np.where(rng.random_sample(len(a)) < 0.5, -1, 1) for a in v]
        if case['zero']:  # some zero entries, not a whole mode
            for a in v:
                if len(a) > 1:
                    a[rng.randint(len(a))] = 0
        X = cp_full([a[:, None] for a in v])
        # for rank one every block update solves its least-squares problem, so one sweep suffices; a signed start can be nearly orthogonal
        steps += 1 if kind == 'cp' else 0
    X = (X * case['scale']).astype(case['dtype'])
    if not np.any(X):
        X.flat[0] = 1
    what = models.describe(kind, X, ranks, steps, scale=case['scale'])
    r = models.fit(kind, X, ranks, steps, case['gseed'], tol=0.0, style=case['style'])
    models.check_shapes(r, X, ranks, what)
    err = fro(r.full - X.astype('float64')) / fro(X)
    lim = {'cp': 3e-5, 'hosvd': 5e-5, 'hooi': 5e-5, 'ncp': 5e-5, 'ntucker': 5e-5}[kind]
    ensure(err <= lim, '%s: exactly representable data is reproduced with relative error %.3g', what, err)
    return ['kind=' + kind, 'order=%d' % n]


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2
