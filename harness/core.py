"""Oracles and helpers shared by the property modules; no code under test in here."""
import numpy as np


class Violation(Exception):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def show(a, n=200):
    s = np.array2string(np.asarray(a), threshold=40, edgeitems=3, precision=7).replace('\n', ' ')
    return s if len(s) < n else s[:n] + '...'


def arr(x, what='result'):
    if x is None or isinstance(x, (list, tuple, dict, str)) and not isinstance(x, np.ndarray):
        if x is None or isinstance(x, (dict, str)):
            fail('%s is %r, not an array', what, x)
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation('%s is not an array: %s' % (what, e))
    if a.dtype == object:
        fail('%s is not a numeric array: %r', what, x)
    return a


def same_shape(got, want, what):
    got = arr(got, what)
    want = np.asarray(want)
    if got.shape != want.shape:
        fail('%s has shape %s, expected %s', what, got.shape, want.shape)
    return got


def exact(got, want, what):
    got = same_shape(got, want, what)
    want = np.asarray(want)
    if not np.array_equal(got, want):
        i = tuple(int(v) for v in np.argwhere(got != want)[0]) if got.ndim else ()
        fail('%s differs from the reference at %s: got %r, expected %r', what, i, got[i].item(), want[i].item())


def near(got, want, what, rtol=1e-5, atol=0.0):
    """|got - want| <= atol + rtol * scale(want), scale = the largest magnitude in want (a norm-wise bound);
    atol may be an array of bounds, one for each entry"""
    got = same_shape(got, want, what)
    want = np.asarray(want)
    if got.size == 0:
        return
    g = got.astype(np.float64)
    w = want.astype(np.float64)
    if not np.all(np.isfinite(g)):
        fail('%s is not finite: %s (expected %s)', what, show(got), show(want))
    err = np.abs(g - w)
    lim = np.broadcast_to(np.asarray(atol, dtype=np.float64) + rtol * np.max(np.abs(w)), w.shape)
    if not np.all(err <= lim):
        i = tuple(int(v) for v in np.argwhere(~(err <= lim))[0]) if got.ndim else ()
        fail('%s differs from the reference at %s: got %r, expected %r (error %.3g, allowed %.3g)', what, i,
             g[i].item(), w[i].item(), err[i].item(), lim[i].item())


def finite(a, what):
    a = arr(a, what)
    if not np.all(np.isfinite(a)):
        fail('%s is not finite: %s', what, show(a))
    return a


# ---------------------------------------------------------------- generated data

def data(shape, fill, seed, dtype='float64'):
    """array content as a pure function of the drawn case"""
    shape = tuple(shape)
    n = int(np.prod(shape, dtype=np.int64))
    rng = np.random.RandomState(seed % (2 ** 32))
    if fill == 'index':
        a = np.arange(1, n + 1, dtype=np.float64).reshape(shape)
    elif fill == 'ints':
        a = rng.randint(-4, 5, size=shape).astype(np.float64)
    elif fill == 'counts':
        a = rng.randint(0, 6, size=shape).astype(np.float64)
    elif fill == 'bits':
        a = rng.randint(0, 2, size=shape).astype(np.float64)
    elif fill == 'wide':  # integers of very different magnitude, exact in float32 and int32
        a = rng.randint(-9, 10, size=shape) * 10.0 ** rng.randint(0, 6, size=shape)
    elif fill == 'unit':
        a = rng.random_sample(shape)
    elif fill == 'normal':
        a = rng.standard_normal(shape)
    elif fill == 'neg':
        a = -rng.random_sample(shape) - 0.05
    elif fill == 'sparse':
        a = rng.standard_normal(shape) * (rng.random_sample(shape) < 0.4)
    elif fill == 'possparse':
        a = rng.random_sample(shape) * (rng.random_sample(shape) < 0.5)
    elif fill == 'big':
        a = rng.standard_normal(shape) * 1e4
    elif fill == 'small':
        a = rng.standard_normal(shape) * 1e-3
    elif fill == 'const':
        a = np.full(shape, float(rng.randint(1, 6)))
    elif fill == 'spread':  # slices of very different magnitude, 10^-2 to 10^2 in each of up to four modes
        a = rng.standard_normal(shape)
        for m, d in enumerate(shape[:4]):
            a = a * (10.0 ** rng.randint(-2, 3, size=d)).reshape([-1 if k == m else 1 for k in range(len(shape))])
    elif fill == 'zeros':
        a = np.zeros(shape)
    else:
        raise ValueError(fill)
    return np.array(a, dtype=dtype)


# ---------------------------------------------------------------- reference multilinear algebra

def unf(X, m):
    """Kolda's mode-m matricization: column index runs fastest over the lowest remaining mode"""
    X = np.asarray(X)
    return np.reshape(np.moveaxis(X, m, 0), (X.shape[m], -1), order='F')


def kr(mats):
    """Khatri-Rao product, first factor slowest"""
    out = np.asarray(mats[0])
    for B in mats[1:]:
        B = np.asarray(B)
        out = (out[:, None, :] * B[None, :, :]).reshape(-1, B.shape[1])
    return out


def kron(mats):
    out = np.asarray(mats[0])
    for B in mats[1:]:
        out = np.kron(out, np.asarray(B))
    return out


def mode_mul(X, M, m):
    return np.moveaxis(np.tensordot(np.asarray(M), np.asarray(X), (1, m)), 0, m)


def ttm(X, mats, skip=None, tr=False):
    for i, M in enumerate(mats):
        if i == skip:
            continue
        X = mode_mul(X, np.asarray(M).T if tr else M, i)
    return X


def cp_full(factors, lam=None):
    factors = [np.asarray(f, dtype=np.float64) for f in factors]
    R = factors[0].shape[1]
    lam = np.ones(R) if lam is None else np.asarray(lam, dtype=np.float64).reshape(-1)
    out = np.zeros([f.shape[0] for f in factors])
    for r in range(R):
        t = np.asarray(lam[r])
        for f in factors:
            t = np.multiply.outer(t, f[:, r])
        out += t
    return out


def fro(a):
    return float(np.sqrt(np.sum(np.square(np.asarray(a, dtype=np.float64)))))


def rmse_nz(X, full):
    X = np.asarray(X, dtype=np.float64)
    mask = X != 0
    return float(np.sqrt(np.sum(((X - full) * mask) ** 2) / np.sum(mask)))
