"""C27: decompositions commute with rescaling the data and, for HOSVD and HOOI, with relabelling it"""
import numpy as np

from harness import gen, models
from harness.core import ensure, fro, near, unf

RULE = ('each of the five decompositions on X and on cX from the same seed (c a power of two from 2^-13 to 2^20, also negative for the '
        'orthogonal methods and CP), HOSVD on X with its modes permuted, HOSVD and HOOI on X with the indices of each mode permuted; '
        'truncations at a singular-value tie are left out. Non-trivial: at least two modes of size >= 2 and rank above 1 or a truncated mode.')
CASES = {'quick': 1000, 'thorough': 10000}


def strategy(st, tier):
    return models.model_case(st, models.ALL, maxsize=250, maxrank=4, hi=5, maxdim=6, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()}, steps=gen.pick(st, 1, 6), rel=st.sampled_from(['scale'] * 4 + ['modes', 'rows']),
        power=st.sampled_from([1, 7, 12, 20, -3, -8, -13]), neg=st.booleans(), perm=gen.perms(st, len(c['shape'])))))


def check(case):
    case = dict(case, dtype='float64')
    rel = case['rel']
    if rel == 'modes':  # the other methods start from random factors or depend on the order of the modes
        case['kind'] = 'hosvd'
    elif rel == 'rows':
        case['kind'] = 'hooi' if case['kind'] in ('hooi', 'cp', 'ncp') else 'hosvd'
    kind, X, ranks, fill = models.setup(case)
    X = X.astype('float32').astype('float64')
    steps = case['steps']
    what = models.describe(kind, X, ranks, steps)
    a = models.fit(kind, X, ranks, steps, case['gseed'], tol=0.0)
    models.check_shapes(a, X, ranks, what)
    norm = fro(X)
    tie = False
    if kind in ('hosvd', 'hooi'):
        for n in range(X.ndim):
            s = np.linalg.svd(unf(X, n), compute_uv=False)
            if ranks[n] < len(s) and s[ranks[n] - 1] - s[ranks[n]] < 3e-2 * s[0]:
                tie = True
    lab = ['kind=' + kind, 'relation=' + rel]
    if rel == 'scale':
        c = 2.0 ** case['power']
        if case['neg'] and kind in ('hosvd', 'hooi', 'cp'):
            c = -c
        b = models.fit(kind, X * c, ranks, steps, case['gseed'], tol=0.0)
        models.check_shapes(b, X, ranks, what)
        w = '%s on %g times the data' % (what, c)
        lab.append('c < 0' if c < 0 else 'c > 1' if c > 1 else 'c < 1')
        if kind in ('ncp', 'ntucker'):  # every block bears the same share of the scale
            n = X.ndim + (kind == 'ntucker')
            norms = [[fro(f) for f in r.factors] + ([fro(r.core)] if kind == 'ntucker' else []) for r in (a, b)]
            near([v / c ** (1.0 / n) for v in norms[1]], norms[0], w + ': norms of the blocks by the %s root of the factor' % n, 0, 0.02 * max(norms[0]))
        want, got = a.full.astype('float64'), b.full.astype('float64') / c
    elif rel == 'modes':
        p = case['perm']
        b = models.fit(kind, np.transpose(X, p), [ranks[i] for i in p], steps, case['gseed'], tol=0.0)
        w = '%s with modes permuted by %s' % (what, p)
        ensure(b.full.shape == tuple(X.shape[i] for i in p), '%s: full has shape %s', w, b.full.shape)
        want, got, c = np.transpose(a.full, p), b.full, 1.0
    else:
        rng = np.random.RandomState(case['gseed'])
        ix = np.ix_(*[rng.permutation(d) for d in X.shape])
        b = models.fit(kind, X[ix], ranks, steps, case['gseed'], tol=0.0)
        w = '%s with the indices of every mode permuted' % what
        want, got, c = a.full[ix], b.full, 1.0
    if tie and (rel != 'scale' or c < 0):
        return lab + ['not compared: the truncation is not unique']
    if kind == 'hooi' and (rel != 'scale' or c < 0):  # later truncations can tie too
        near([h[1] for h in b.hist[:2]], [h[1] for h in a.hist[:2]], w + ': relative residuals', 0, 1e-2)
        return lab
    tol = 2e-3 if kind in ('ncp', 'ntucker') else 3e-4
    near(got, want, w + ': full', 0, tol * norm)
    if a.hist is not None:
        ensure(len(a.hist) == len(b.hist), '%s: %d steps instead of %d', w, len(b.hist), len(a.hist))
        near([h[1] for h in b.hist], [h[1] for h in a.hist], w + ': relative residuals', 0, tol)
        near([h[0] / abs(c) for h in b.hist], [h[0] for h in a.hist], w + ': RMSE', 0, tol * norm)
    return lab


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and (max(case['ranks']) > 1 or any(r < d for r, d in zip(case['ranks'], case['shape']))) \
        and not any(l.startswith('not compared') for l in labels)
