"""C09: the losses are the stated norms, and refuse tensors of different shape"""
import numpy as np

from harness import gen
from harness.core import data, near, ensure
from harness.sut import run, tf, loss, raises, TensorErr

RULE = ('two tensors of order 0-6, dense / sparse / tiny / huge values, zeros of either sign, float32 and float64; plus pairs of different '
        'shapes (permuted, broadcastable, same size) that RMSE must refuse. Non-trivial: some but not all entries of the first tensor '
        'are zero and the tensors differ.')
CASES = {'quick': 7000, 'thorough': 80000}
FILLS = ['sparse', 'possparse', 'normal', 'ints', 'bits', 'big', 'small', 'unit']


def strategy(st, tier):
    return st.fixed_dictionaries(dict(
        shape=gen.mix(st, (1, st.just([])), (15, gen.wide(st, 1, 8)(gen.shapes(st, 1, 6, 5, 600)))), fa=st.sampled_from(FILLS), fb=st.sampled_from(FILLS),
        dtype=st.sampled_from(['float32', 'float64']), tiny=st.booleans(), negzero=st.booleans(), equal=gen.pick(st, 0, 9),
        other=st.sampled_from(['reversed', 'ones', 'flat', 'longer', 'prefixed']), seed=gen.seeds(st)))


def check(case):
    sh, dt = case['shape'], case['dtype']
    A = data(sh, case['fa'], case['seed'], dt)
    B = data(sh, case['fb'], case['seed'] + 1, dt)
    rng = np.random.RandomState(case['seed'] % 99991)
    if case['tiny']:  # tiny entries are not zero
        A = np.where(rng.random_sample(A.shape) < 0.3, np.asarray(rng.choice([-1, 1]) * 10.0 ** -rng.randint(3, 25), dt), A).astype(dt)
    if case['negzero']:
        A = np.where(A == 0, np.asarray(-0.0, dt), A)
    if case['equal'] == 0:
        B = A.copy()
    if not np.any(A):
        A = np.array(A)
        A.flat[0] = 2
    A, B = np.array(A), np.array(B)
    a, b = A.astype('float64'), B.astype('float64')
    mask = a != 0
    sq = lambda d: float(np.sum(d ** 2))
    want = [0.5 * sq(a - b), np.sqrt(sq(a - b) / a.size), np.sqrt(sq((a - b) * mask) / np.sum(mask)),
            np.sqrt(sq((a - b) * (b != 0)) / max(1, np.sum(b != 0)))]
    # changing the hypothesis where the data is zero must not matter
    B2 = np.where(mask, B, B + 3).astype(dt)

    def build():
        x, y, y2 = tf.constant(A), tf.constant(B), tf.constant(B2)
        return [loss.l2(x, y), loss.rmse(x, y), loss.rmse_ignore_zero(x, y), loss.rmse_ignore_zero(y, x),
                loss.rmse_ignore_zero(x, y2), loss.l2(y, x), loss.rmse(y, x)]
    got = run('losses of two %s %s tensors' % (sh, dt), build)
    names = ['l2', 'rmse', 'rmse_ignore_zero', 'rmse_ignore_zero (arguments swapped)']
    tol = 2e-5 if dt == 'float32' else 1e-12
    # squares below the smallest normal number of the precision may be flushed to zero
    under = np.finfo(dt).tiny * 2
    atol = [under * a.size] + [np.sqrt(under)] * 3
    for k in range(4):
        if k == 3 and not np.any(B):
            continue
        near(got[k], want[k], names[k], tol, atol[k])
        ensure(np.asarray(got[k]).shape == (), '%s is not a scalar', names[k])
    near(got[4], want[2], 'rmse_ignore_zero with other values where the data is zero', tol, atol[2])
    near(got[5], want[0], 'l2 (arguments swapped)', tol, atol[0])
    near(got[6], want[1], 'rmse (arguments swapped)', tol, atol[1])
    other = {'reversed': sh[::-1], 'ones': [1] * len(sh), 'flat': [int(np.prod(sh, dtype=int))], 'prefixed': [1] + sh,
             'longer': sh[:-1] + [sh[-1] + 1] if sh else [2]}[case['other']]
    lab = ['order=%d' % len(sh), 'dtype=' + dt]
    if other != sh:
        lab.append('refused: ' + case['other'])
        with tf.Graph().as_default():
            x, y = tf.constant(A), tf.constant(data(other, 'unit', 7, dt))
            for f, nm in ((loss.rmse, 'rmse'), (loss.rmse_ignore_zero, 'rmse_ignore_zero')):
                raises(TensorErr, lambda: f(x, y), '%s of %s and %s' % (nm, sh, other))
                raises(TensorErr, lambda: f(y, x), '%s of %s and %s' % (nm, other, sh))
    if 0 < np.sum(mask) < a.size:
        lab.append('some zeros in the data')
    if case['tiny']:
        lab.append('tiny entries')
    if case['equal'] == 0:
        lab.append('equal tensors')
    return lab


def nontrivial(case, labels):
    return 'some zeros in the data' in labels and 'equal tensors' not in labels
