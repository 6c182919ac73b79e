"""Driving the five decompositions through their public interface."""
import os

import numpy as np

from . import gen
from .core import arr, cp_full, data, ensure, fail, finite, fro, near, rmse_nz, ttm
from .sut import (tf, guard, case_dir, Provider, Environment, CP_ALS, NCP_BCU, NTUCKER_BCU, HOSVD, HOOI)

ITER = ['cp', 'ncp', 'ntucker', 'hooi']
ALL = ['cp', 'ncp', 'ntucker', 'hooi', 'hosvd']
SIGNED = ['normal', 'ints', 'unit', 'sparse', 'neg', 'index', 'counts', 'big', 'small', 'possparse']
NONNEG = ['unit', 'counts', 'possparse', 'index', 'bits', 'unit_big', 'unit_small']


def make_data(shape, fill, seed, dtype='float64'):
    if fill == 'unit_big':
        X = data(shape, 'unit', seed) * 300
    elif fill == 'unit_small':
        X = data(shape, 'unit', seed) * 1e-2
    elif fill == 'mixed':
        X = data(shape, 'normal', seed) + 0.7
    elif fill == 'spikes':  # a few entries: components appear late and the step sizes change quickly
        rng = np.random.RandomState(seed % (2 ** 31))
        X = np.zeros(shape)
        for _ in range(rng.randint(2, 5)):
            X[tuple(rng.randint(0, d) for d in shape)] = rng.randint(1, 9)
    elif fill == 'offblock':  # one large entry and a block of small ones that shares no index with it
        rng = np.random.RandomState(seed % (2 ** 31))
        X = np.zeros(shape)
        X[(slice(1, None),) * len(shape)] = rng.random_sample([d - 1 for d in shape])
        X[(0,) * len(shape)] = [2, 8, 30][rng.randint(3)]
    elif fill == 'planted':  # low rank plus a little noise, non-negative
        rng = np.random.RandomState(seed % (2 ** 31))
        X = cp_full([rng.random_sample((d, 2)) for d in shape]) + 0.05 * rng.random_sample(shape)
    else:
        X = data(shape, fill, seed)
    if not np.any(X):
        X.flat[0] = 1.0
    if dtype.startswith('int'):
        X = np.rint(X * (1 if np.max(np.abs(X)) >= 1 else 10)).astype(dtype)
        if not np.any(X):
            X.flat[0] = 1
        return X
    return X.astype(dtype)


def clamp_ranks(kind, shape, ranks):
    """the ranks each method admits (HOSVD/HOOI take singular vectors, so at most as many as exist)"""
    if kind in ('cp', 'ncp', 'ntucker'):
        return list(ranks)
    n = len(shape)
    out = [min(r, d, max(1, int(np.prod([x for j, x in enumerate(shape) if j != i])))) for i, (r, d) in enumerate(zip(ranks, shape))]
    changed = kind == 'hooi'
    while changed:
        changed = False
        for i in range(n):
            lim = int(np.prod([x for j, x in enumerate(out) if j != i]))
            if out[i] > lim:
                out[i] = lim
                changed = True
    return out


def provider(X, style=0):
    if style == 1:
        class P(Provider):
            def full_tensor(self):
                return X
        return P()
    p = Provider()
    p.full_tensor = lambda: X
    return p


CLS = {'cp': CP_ALS, 'ncp': NCP_BCU, 'ntucker': NTUCKER_BCU, 'hosvd': HOSVD, 'hooi': HOOI}


def args_of(kind, ranks, tol=None, vi=None, verbose=None):
    kw = {}
    if kind != 'hosvd':
        if tol is not None:
            kw['tol'] = tol
        if vi is not None:
            kw['validation_internal'] = vi
        if verbose is not None:
            kw['verbose'] = verbose
    if kind == 'cp':
        return CP_ALS.CP_Args(rank=ranks[0], **kw)
    if kind == 'ncp':
        return NCP_BCU.NCP_Args(rank=ranks[0], **kw)
    if kind == 'ntucker':
        return NTUCKER_BCU.NTUCKER_Args(ranks=list(ranks), **kw)
    if kind == 'hooi':
        return HOOI.HOOI_Args(ranks=list(ranks), **kw)
    return HOSVD.HOSVD_Args(ranks=list(ranks))


def describe(kind, X, ranks, steps, **kw):
    return '%s(shape %s, rank %s, steps %s%s)' % (kind.upper(), list(X.shape), ranks if 'tuck' in kind or kind.startswith('ho') else ranks[0],
                                                  steps, ''.join(', %s=%s' % i for i in sorted(kw.items()) if i[1] is not None))


class Result(object):
    """what a user sees of a trained model, copied"""

    def __init__(self, kind, model, hist):
        self.kind = kind
        self.hist = None if hist is None else [[float(v) for v in h] for h in hist]
        self.full = np.array(arr(model.full, 'full'))
        ensure(isinstance(model.factors, (list, tuple)), 'factors is %r', type(model.factors))
        self.factors = [np.array(arr(f, 'a factor')) for f in model.factors]
        self.core = self.lambdas = None
        if kind in ('cp', 'ncp'):
            self.lambdas = np.array(arr(model.lambdas, 'lambdas'))
        else:
            self.core = np.array(arr(model.core, 'core'))

    def rel(self):
        return np.array([h[1] for h in self.hist])

    def recon(self):
        F = [f.astype('float64') for f in self.factors]
        if self.core is not None:
            return ttm(self.core.astype('float64'), F)
        return cp_full(F, self.lambdas)

    def magnitude(self):
        """largest entry of the reconstruction without cancellation: the scale of its rounding error"""
        F = [np.abs(f.astype('float64')) for f in self.factors]
        if self.core is not None:
            return float(np.max(ttm(np.abs(self.core.astype('float64')), F)))
        return float(np.max(cp_full(F, np.abs(self.lambdas))))


def build(kind, X, ranks, tol=None, vi=None, verbose=None, path=None, style=0, env=None, args=None):
    env = env or Environment(provider(X, style), summary_path=path)
    m = CLS[kind](env)
    m.build_model(args_of(kind, ranks, tol, vi, verbose) if args is None else args)
    return m


def fit(kind, X, ranks, steps, seed=1, tol=None, vi=None, verbose=None, path=None, style=0, copy=True):
    """build and train in a fresh graph"""
    with guard(describe(kind, X, ranks, steps, tol=tol, validation_internal=vi, verbose=verbose)), tf.Graph().as_default():
        tf.set_random_seed(seed)
        m = build(kind, X, ranks, tol, vi, verbose, path, style)
        h = m.train(steps)
        return Result(kind, m, h) if copy else (m, h)


def fit_prefixes(kind, X, ranks, counts, seed=1, tol=0.0, vi=None):
    """results of train(k) for each k from one and the same initialisation"""
    out = []
    with guard(describe(kind, X, ranks, counts, tol=tol)):
        with tf.Graph().as_default():
            tf.set_random_seed(seed)
            m = build(kind, X, ranks, tol, vi)
            for k in counts:
                out.append(Result(kind, m, m.train(k)))
        if not consistent(out):  # the same model does not restart alike: build anew for every length
            out = [fit(kind, X, ranks, k, seed, tol, vi) for k in counts]
    return out if consistent(out) else None


class watch(object):
    """while active, notes the public state of a model every time it shows a new full tensor between two session calls"""

    def __init__(self, kind, model):
        self.kind, self.model, self.seen, self.last = kind, model, [], model.full

    def note(self):
        full = self.model.full
        if full is not None and full is not self.last:
            self.last = full
            lam = self.model.lambdas if self.kind in ('cp', 'ncp') else True
            if lam is None:  # the weights of NCP_BCU appear when training ends
                m = self.model
                self.seen.append((np.array(full), [np.array(f) for f in m.factors], None))
            else:
                self.seen.append(Result(self.kind, self.model, None))

    def __enter__(self):
        self.run = tf.Session.run
        me = self

        def run(sess, *a, **k):
            me.note()
            return me.run(sess, *a, **k)
        tf.Session.run = run
        return self

    def __exit__(self, *a):
        tf.Session.run = self.run
        if a[0] is None:
            self.note()
        return False


def fit_steps(kind, X, ranks, K, seed=1, tol=0.0, vi=None, prefixes=False):
    """results of the steps 1..K of one training: observed while it runs, or as the ends of trainings of 1, 2, ... K steps"""
    if not prefixes:
        with guard(describe(kind, X, ranks, K, tol=tol)), tf.Graph().as_default():
            tf.set_random_seed(seed)
            m = build(kind, X, ranks, tol, vi)
            with watch(kind, m) as t:
                h = m.train(K)
            end = Result(kind, m, h)
        out = []
        for k, r in enumerate(t.seen):
            if isinstance(r, tuple):
                full, factors, _ = r
                r = Result.__new__(Result)
                r.kind, r.full, r.factors, r.core, r.lambdas = kind, full, factors, None, end.lambdas
            r.hist = end.hist[:k + 1]
            out.append(r)
        Xf = X.astype('float64')
        if len(out) == len(h) and all(abs(fro(r.full - Xf) / fro(Xf) - r.hist[-1][1]) <= 1e-4 for r in out):
            out[-1] = end
            return out
    return fit_prefixes(kind, X, ranks, list(range(1, min(K, 8) + 1)), seed, tol, vi)


def consistent(results):
    """the shorter histories are prefixes of the longer ones"""
    longest = max(results, key=lambda r: len(r.hist))
    for r in results:
        for a, b in zip(r.hist, longest.hist):
            if not np.allclose(a, b, rtol=1e-4, atol=1e-6):
                return False
    return True


def check_shapes(r, X, ranks, what):
    n = X.ndim
    ensure(len(r.factors) == n, '%s: %d factors for %d modes', what, len(r.factors), n)
    for i, f in enumerate(r.factors):
        want = (X.shape[i], ranks[0] if r.kind in ('cp', 'ncp') else ranks[i])
        ensure(f.shape == want, '%s: factor %d has shape %s, expected %s', what, i, f.shape, want)
        finite(f, '%s: factor %d' % (what, i))
    if r.core is not None:
        ensure(r.core.shape == tuple(ranks), '%s: core has shape %s, expected %s', what, r.core.shape, tuple(ranks))
        finite(r.core, what + ': core')
    else:
        ensure(r.lambdas.size == ranks[0], '%s: %d weights for rank %d', what, r.lambdas.size, ranks[0])
        finite(r.lambdas, what + ': weights')
    ensure(r.full.shape == X.shape, '%s: full has shape %s, expected %s', what, r.full.shape, X.shape)
    finite(r.full, what + ': full')


def check_coherent(r, X, ranks, what):
    check_shapes(r, X, ranks, what)
    Xf = X.astype('float64')
    mag = r.magnitude()
    n = X.ndim
    near(r.full, r.recon(), '%s: full against the reconstruction from factors and %s' % (
        what, 'core' if r.core is not None else 'weights'), 0, 1e-5 * mag)
    if r.hist is not None:
        ensure(len(r.hist) >= 1, '%s: empty history', what)
        full = r.full.astype('float64')
        rm, rel = rmse_nz(Xf, full), fro(full - Xf) / fro(Xf)
        slack = 1e-5 * (mag + np.max(np.abs(Xf)))
        last = r.hist[-1]
        ensure(len(last) == 2, '%s: history entries of length %d', what, len(last))
        ensure(abs(last[0] - rm) <= slack + 2e-4 * rm, '%s: last recorded RMSE %.8g, the RMSE of full is %.8g', what, last[0], rm)
        rs = slack * np.sqrt(X.size) / fro(Xf)
        ensure(abs(last[1] - rel) <= rs + 2e-4 * rel, '%s: last recorded relative residual %.8g, that of full is %.8g', what,
               last[1], rel)


def model_case(st, kinds, maxsize=250, maxrank=5, hi=5, maxdim=6, large=0, share=24):
    """a model, data and ranks; one case in `share` has a large shape if large is set, with ranks up to that"""
    def f(sh, maxrank=maxrank):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            kind=st.sampled_from(kinds), shape=st.just(sh), ranks=st.lists(gen.dims(st, maxrank), min_size=n, max_size=n),
            fill=gen.pick(st, 0, 6), dtype=st.sampled_from(['float64', 'float64', 'float32', 'int64']), dseed=gen.seeds(st),
            gseed=st.integers(0, 10 ** 6), style=gen.pick(st, 0, 1)))
    usual = gen.shapes(st, 2, hi, maxdim, maxsize).flatmap(f)
    if not large:
        return usual
    return gen.mix(st, (share - 1, usual), (1, gen.large(st).flatmap(lambda sh: f(sh, large))))


def setup(case, fills=None):
    kind = case['kind']
    names = fills or (NONNEG if kind in ('ncp', 'ntucker') else SIGNED)
    fill = case.get('data') or names[case['fill'] * len(names) // 7]
    X = make_data(case['shape'], fill, case['dseed'], case['dtype'])
    ranks = clamp_ranks(kind, case['shape'], case['ranks'])
    if kind == 'ntucker':  # keep the core small
        n = 1
        for i in range(len(ranks)):
            if n * ranks[i] > 400:
                ranks[i] = 1
            n *= ranks[i]
    return kind, X, ranks, fill
