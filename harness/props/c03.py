"""C03: Hadamard, Kronecker and Khatri-Rao products of a list, with skipping and reversal"""
import numpy as np
from functools import reduce

from harness import gen
from harness.core import data, exact, near, kr, kron, ensure
from harness.sut import ops, run, tf

RULE = ('a list of 1-6 matrices (hadamard also tensors) whose shapes fit the product, none / one (int) / several (list, any '
        'order) skipped, reversed or not, five dtypes, integer-valued data compared exactly. Non-trivial: at least two '
        'matrices take part.')
CASES = {'quick': 7000, 'thorough': 80000}


def strategy(st, tier):
    n = st.sampled_from([2, 3, 1, 4, 5, 6, 3] * 4 + [7, 8])

    def f(k):
        return st.fixed_dictionaries(dict(
            op=st.sampled_from(['khatri', 'kron', 'hadamard']),
            dims=st.lists(st.tuples(gen.size(st, 1, 5, 40, 20), gen.size(st, 1, 4, 30, 20)).map(list), min_size=k, max_size=k),
            R=gen.size(st, 1, 6, 40), hshape=gen.wide(st, 1, 3)(gen.shapes(st, 1, 3, 5, 60)),
            skip=st.one_of(st.none(), gen.pick(st, 0, k - 1), gen.subset(st, k)),
            reverse=st.booleans(), dtype=st.sampled_from(['float32', 'float64', 'int32', 'int64', 'complex64']),
            fill=st.sampled_from(['ints', 'index', 'bits', 'normal', 'spread']), seed=gen.seeds(st)))
    return n.flatmap(f)


def check(case):
    op, k = case['op'], len(case['dims'])
    skip = case['skip']
    skipped = [] if skip is None else ([skip] if isinstance(skip, int) else skip)
    if len(skipped) >= k:  # at least one matrix must remain
        skip, skipped = None, []
    dt = case['dtype']
    fill = 'ints' if dt.startswith('int') and case['fill'] in ('normal', 'spread') else case['fill']
    if op == 'hadamard':
        shapes = [case['hshape']] * k
    elif op == 'khatri':
        shapes, n = [], case['R']
        for d in case['dims']:
            shapes.append([d[0] if n * d[0] <= 60000 else 1, case['R']])
            n *= shapes[-1][0]
    else:
        shapes = [list(d) for d in case['dims']]
        n = 1
        for i, s in enumerate(shapes):  # keep the product small
            if n * s[0] * s[1] > 6000:
                shapes[i] = s = [1, 1]
            n *= s[0] * s[1]
    mats = [data(s, fill, case['seed'] + 31 * i, dt) for i, s in enumerate(shapes)]
    used = [m for i, m in enumerate(mats) if i not in skipped]
    rev = case['reverse'] and op != 'hadamard'
    order = used[::-1] if rev else used
    wide = [m.astype('float64') if dt.startswith('float') else m for m in order]
    ref = {'khatri': kr, 'kron': kron, 'hadamard': lambda l: reduce(np.multiply, l)}[op](wide)

    def build():
        t = [tf.constant(m) for m in mats]
        if op == 'hadamard':
            out = [ops.hadamard(t, skip) if skip is not None else ops.hadamard(t), ops.hadamard(t, skip_matrices_index=skip)]
        else:
            f = getattr(ops, op)
            out = [f(t, skip, rev), f(t, skip_matrices_index=skip, reverse=rev)]
            if not rev:
                out.append(f(t, skip))
        return out
    what = '%s of %s, skip=%r, reverse=%r, %s' % (op, shapes, skip, rev, dt)
    for got in run(what, build):
        if dt.startswith('int') or dt.startswith('complex') and fill not in ('normal', 'spread') and np.max(np.abs(ref), initial=0) < 2 ** 24:
            exact(got, ref.astype(dt) if dt.startswith('int') else ref, what)
        elif dt.startswith('complex'):
            exact(np.asarray(got).imag, np.zeros(ref.shape), what)
            near(np.asarray(got).real, ref.real, what, 0, 1e-5 * np.abs(ref.real))
        else:
            near(got, ref, what, 0, (1e-5 if dt == 'float32' else 1e-12) * np.abs(ref))
        ensure(np.asarray(got).dtype == np.dtype(dt), '%s: dtype %s', what, got.dtype)
    lab = ['op=' + op, 'matrices=%d' % k, 'skip=%s' % ('none' if skip is None else type(skip).__name__)]
    if rev:
        lab.append('reversed')
    if rev and skipped:
        lab.append('reversed and skipped')
    if isinstance(skip, list) and skip != sorted(skip):
        lab.append('skip list not increasing')
    if len(used) >= 2:
        lab.append('two or more take part')
    return lab


def nontrivial(case, labels):
    return 'two or more take part' in labels
