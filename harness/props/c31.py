"""C31: what is learned depends on the values of the data, not on how or where they are kept"""
import os

import numpy as np

from harness import gen, models
from harness.core import ensure
from harness.props.c19 import same
from harness.sut import case_dir, guard, tf, TensorReader

RULE = ('data with entries exact in single precision (integers up to the ends of 8 and 16 bits, halves, and float32 draws; sparse or not) for one of the five decompositions, given as '
        'float64 array and as one to three of: float32, float16 or integer types where exact, big-endian, column-major, strided or reversed views, '
        'transposed views, read-only, memory-mapped, masked-free subclasses, a fresh copy at every request, or written to a csv/txt file, read back with TensorReader '
        'and evaluated; the trained results must be the same. Non-trivial: the data do not have all dimensions one and at least one form is not a '
        'plain contiguous array.')
CASES = {'quick': 480, 'thorough': 6000}
FORMS = ['float32', 'half', 'int', 'smallint', 'bigendian', 'fortran', 'view', 'reversed', 'transposed', 'readonly', 'memmap', 'subclass', 'fresh', 'file', 'file']


class Sub(np.ndarray):
    pass


def strategy(st, tier):
    return models.model_case(st, models.ALL, maxsize=120, maxrank=3, hi=4, maxdim=5, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items() if k != 'dtype'},
        kindof=st.sampled_from(['ints', 'halves', 'floats', 'sparseints', 'bits', 'wide', 'wider']), steps=gen.pick(st, 1, 4),
        forms=gen.subset(st, len(FORMS), 1, 3), ext=st.sampled_from(['csv', 'txt']), shuffle=gen.seeds(st), zeros=st.booleans())))


def values(case):
    rng = np.random.RandomState(case['dseed'] % 2 ** 31)
    sh, k = case['shape'], case['kindof']
    if k == 'floats':
        X = rng.standard_normal(sh).astype('float32').astype('float64')
    elif k == 'halves':
        X = rng.randint(-9, 10, sh) / 2.0
    elif k == 'wide':  # the whole range of the smallest type
        X = rng.randint(-128, 128, sh).astype('float64')
    elif k == 'wider':
        X = rng.randint(-2 ** 15, 2 ** 15, sh).astype('float64')
    elif k == 'bits':
        X = rng.randint(0, 2, sh).astype('float64')
    else:
        X = rng.randint(-6, 7, sh).astype('float64')
        if k == 'sparseints':
            X *= rng.random_sample(sh) < 0.4
    if case['kind'] in ('ncp', 'ntucker'):
        X = np.abs(X)
    X.flat[X.size - 1] = 3.0  # not all zero, and the smallest shape that holds the entries is the shape
    return X


def give(X, form, case):
    """-> (a provider of the same values in another form, None if the form cannot hold them)"""
    if form == 'float32':
        Y = X.astype('float32')
    elif form == 'half':
        Y = X.astype('float16')
    elif form == 'int':
        Y = X.astype('int32')
    elif form == 'smallint':  # the smallest type that holds the values
        Y = X.astype(next(t for t in ('int8', 'uint8', 'int16', 'int32')
                          if np.iinfo(t).min <= X.min() and X.max() <= np.iinfo(t).max))
    elif form == 'bigendian':
        Y = X.astype('>f8')
    elif form == 'fortran':
        Y = np.asfortranarray(X)
    elif form == 'view':
        big = np.full([3 * d for d in X.shape], 9.5)
        Y = big[tuple(slice(1, None, 3) for _ in X.shape)]
        Y[...] = X
    elif form == 'reversed':
        Y = X[tuple(slice(None, None, -1) for _ in X.shape)].copy()[tuple(slice(None, None, -1) for _ in X.shape)]
    elif form == 'transposed':
        Y = np.ascontiguousarray(X.transpose()).transpose()
    elif form == 'readonly':
        Y = X.copy()
        Y.setflags(write=False)
    elif form == 'memmap':
        Y = np.memmap(os.path.join(case_dir(), 'x.bin'), dtype='float64', mode='w+', shape=X.shape)
        Y[...] = X
    elif form == 'subclass':
        Y = X.copy().view(Sub)
    elif form == 'fresh':
        p = models.Provider()
        p.full_tensor = lambda: X.copy()
        return p
    else:
        path = os.path.join(case_dir(), 'data.' + case['ext'])
        rows = [(i, v) for i, v in np.ndenumerate(X) if case['zeros'] or v]
        np.random.RandomState(case['shuffle'] % 2 ** 31).shuffle(rows)
        with open(path, 'w') as f:
            f.writelines('%s,%r\n' % (','.join(map(str, i)), float(v)) for i, v in rows)
        with tf.Graph().as_default():
            r = TensorReader(path)
            r.read()
            with tf.Session() as s:
                Y = s.run(r.full_data)
        ensure(Y.shape == X.shape and np.array_equal(Y, X), 'TensorReader returns %s for a file with the entries of %s', Y, X)
        return models.provider(Y)
    if not np.array_equal(np.asarray(Y, dtype='float64'), X):
        return None
    return models.provider(Y)


def check(case):
    X = values(case)
    kind = case['kind']
    ranks = models.setup(dict(case, dtype='float64'))[2]
    what = models.describe(kind, X, ranks, case['steps'])

    def train(p):
        with guard(what), tf.Graph().as_default():
            tf.set_random_seed(case['gseed'])
            m = models.build(kind, X, ranks, 0.0, env=models.Environment(p))
            h = m.train(case['steps'])
            return models.Result(kind, m, h)
    base = train(models.provider(X.copy()))
    lab = ['kind=' + kind]
    n = 0
    for i in case['forms']:
        form = FORMS[i]
        with guard('reading back a file'):
            p = give(X, form, case)
        if p is None:
            continue
        n += 1
        r = train(p)
        lab.append('form=' + form)
        same(r, base, '%s: data given as %s against a plain array' % (what, form), float(np.max(np.abs(X))))
        models.check_coherent(r, X, ranks, '%s: data given as %s' % (what, form))
    if n:
        lab.append('compared')
    return lab


def nontrivial(case, labels):
    return 'compared' in labels and max(case['shape']) > 1
