"""C05: contraction and inner product"""
import numpy as np

from harness import gen
from harness.core import data, near, exact, ensure
from harness.sut import ops, run, tf, raises

RULE = ('two tensors of order 1-5 sharing 1-4 contracted modes placed at random axes, paired in random order, axes given as int, '
        'list or tuple; inner products of equal shapes, and of shapes that differ (also with equal size or broadcastable), which must be '
        'refused. Non-trivial: the contracted size is at least 2.')
CASES = {'quick': 8000, 'thorough': 100000}


def strategy(st, tier):
    def f(k):
        return st.fixed_dictionaries(dict(
            common=st.lists(gen.mix(st, (24, gen.dims(st, 5)), (1, gen.pick(st, 6, 60))), min_size=k, max_size=k),
            fa=gen.sized(st, gen.mix(st, (24, gen.dims(st, 4)), (1, gen.pick(st, 5, 40))), 0, 3), fb=gen.sized(st, gen.mix(st, (24, gen.dims(st, 4)), (1, gen.pick(st, 5, 40))), 0, 3),
            pa=st.integers(0, 5039), pb=st.integers(0, 5039), same=st.booleans(),
            form=st.sampled_from(['list', 'int', 'tuple']),
            dtype=st.sampled_from(['float32', 'float64', 'int32', 'int64']),
            fill=st.sampled_from(['ints', 'index', 'normal', 'spread']), seed=gen.seeds(st),
            other=st.sampled_from(['reversed', 'flat', 'one', 'longer', 'singleton'])))
    return st.sampled_from([1, 2, 3, 4] * 4 + [5]).flatmap(f)


def place(k, free, code):
    """positions of the k common and the free modes as a permutation decoded from an integer"""
    items = [('c', i) for i in range(k)] + [('f', i) for i in range(len(free))]
    out = []
    while items:
        code, r = divmod(code, len(items))
        out.append(items.pop(r))
    return out


def check(case):
    k, dt = len(case['common']), case['dtype']
    common = case['common'] if not case['same'] else [case['common'][0]] * k
    fill = 'ints' if dt.startswith('int') and case['fill'] in ('normal', 'spread') else case['fill']
    if fill == 'index' and dt in ('float32', 'int32'):
        fill = 'ints'
    left = 40000  # keep the operands and the result small
    common, fa, fb = list(common), list(case['fa']), list(case['fb'])
    for l in (common, fa, fb):
        for i, d in enumerate(l):
            l[i] = d if d <= left else 1
            left //= l[i]
    axes, tens = [], []
    for free, code, sd in ((fa, case['pa'], 1), (fb, case['pb'], 2)):
        lay = place(k, free, code)
        sh = [common[i] if c == 'c' else free[i] for c, i in lay]
        axes.append([lay.index(('c', i)) for i in range(k)])
        tens.append(data(sh, fill, case['seed'] + sd, dt))
    A, B = tens
    conv = {'list': list, 'tuple': tuple, 'int': lambda a: a[0] if len(a) == 1 else list(a)}[case['form']]
    a_axis, b_axis = conv(axes[0]), conv(axes[1])
    wide = (lambda x: x.astype('float64')) if dt.startswith('f') else (lambda x: x)
    ref = np.tensordot(wide(A), wide(B), (axes[0], axes[1]))
    what = 'mul(%s, %s, a_axis=%r, b_axis=%r)' % (A.shape, B.shape, a_axis, b_axis)
    # inner product of A with a tensor of the same shape
    C = data(A.shape, fill, case['seed'] + 3, dt)

    def build():
        return ops.mul(tf.constant(A), tf.constant(B), a_axis, b_axis), ops.inner(tf.constant(A), tf.constant(C))
    got, inn = run(what + ' / inner', build)
    iref = np.sum(wide(A) * wide(C))
    scale = np.sum(np.abs(wide(A)) * np.abs(wide(C))) if dt.startswith('f') else 0
    if dt.startswith('int'):
        exact(got, ref.astype(dt), what)
        exact(inn, np.asarray(iref).astype(dt), 'inner of two %s' % (A.shape,))
    else:
        s = np.tensordot(np.abs(wide(A)), np.abs(wide(B)), (axes[0], axes[1]))
        eps = 3e-6 if dt == 'float32' else 1e-13
        near(got, ref, what, 0, 2 * eps * s)
        near(inn, iref, 'inner of two %s' % (A.shape,), 0, 2 * eps * scale)
    # different shapes are refused
    sh = list(A.shape)
    other = {'reversed': sh[::-1], 'flat': [int(np.prod(sh))], 'one': [1] * len(sh), 'longer': sh[:-1] + [sh[-1] + 1],
             'singleton': [1] + sh}[case['other']]
    lab = ['contracted=%d' % k, 'form=' + case['form'], 'dtype=' + dt, 'order a=%d' % A.ndim]
    if other != sh:
        lab.append('inner refused: ' + case['other'])
        with tf.Graph().as_default():
            a, b = tf.constant(A), tf.constant(data(other, fill, 5, dt))
            raises(ValueError, lambda: ops.inner(a, b), 'inner of %s and %s' % (sh, other))
            raises(ValueError, lambda: ops.inner(b, a), 'inner of %s and %s' % (other, sh))
    if axes[0] != sorted(axes[0]) or axes[1] != sorted(axes[1]):
        lab.append('axes not increasing')
    if A.ndim == k or B.ndim == k:
        lab.append('fully contracted operand')
    return lab


def nontrivial(case, labels):
    return int(np.prod(case['common'])) >= 2
