"""C08: Kruskal and Tucker tensors extract to the tensor they denote"""
import numpy as np

from harness import gen
from harness.core import data, near, cp_full, ttm, ensure
from harness.sut import run, tf, KTensor, TTensor

RULE = ('Kruskal tensors of order 1-7 with 1-8 components, weights absent / vector / column, and Tucker tensors of order 1-6 with '
        'core sizes above and below the mode sizes; factors, weights and core given as ndarray or tf.Tensor, float32 or float64, zero and '
        'negative values. Non-trivial: at least two components (core entries).')
CASES = {'quick': 6000, 'thorough': 80000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            shape=st.just(sh), kind=st.sampled_from(['kruskal', 'tucker']), R=gen.size(st, 1, 8, 40),
            ranks=st.lists(gen.mix(st, (24, gen.dims(st, 5)), (1, gen.pick(st, 6, 30))), min_size=n, max_size=n),
            weights=st.sampled_from(['none', 'vector', 'column']), dtype=st.sampled_from(['float64', 'float32']),
            wdtype=st.sampled_from(['same', 'same', 'float64', 'int64']),
            factor_form=st.sampled_from(['ndarray', 'tensor', 'variable']), other_form=st.sampled_from(['ndarray', 'tensor']),
            fill=st.sampled_from(['normal', 'ints', 'sparse', 'unit', 'neg', 'spread']), seed=gen.seeds(st)))
    return gen.wide(st)(gen.shapes(st, 1, 7, 5, 1500)).flatmap(f)


def check(case):
    sh, n, dt = case['shape'], len(case['shape']), case['dtype']
    kr_ = case['kind'] == 'kruskal'
    R = case['R']
    ranks = [R] * n if kr_ else list(case['ranks'])
    if not kr_:
        size = 1
        for i in range(n):
            if size * ranks[i] > 1500:
                ranks[i] = 1
            size *= ranks[i]
    F = [data([d, r], case['fill'], case['seed'] + i, dt) for i, (d, r) in enumerate(zip(sh, ranks))]
    orig = [f.copy() for f in F]
    lam = core = None
    wdt = dt
    if kr_:
        # weights of another dtype only as arrays (a tf.Tensor carries its dtype)
        if case['other_form'] == 'ndarray' and case['wdtype'] != 'same':
            wdt = case['wdtype']
        wsh = {'none': None, 'vector': [R], 'column': [R, 1]}[case['weights']]
        if wsh:
            lam = data(wsh, 'ints' if wdt == 'int64' else 'normal', case['seed'] + 99, wdt)
    else:
        core = data(ranks, case['fill'], case['seed'] + 99, dt)
    init = []

    def build():
        def wrap(a, form):
            if form == 'variable':
                v = tf.Variable(a)
                init.append(v.initializer)
                return v
            return tf.constant(a) if form == 'tensor' else a
        fs = [wrap(f, case['factor_form']) for f in F]
        if kr_:
            t = KTensor(fs) if lam is None else KTensor(fs, wrap(lam, case['other_form']))
        else:
            t = TTensor(wrap(core, case['other_form']), fs)
        ensure(t.order == n, 'order is %r, expected %d', t.order, n)
        e = t.extract()
        ensure(e.get_shape().as_list() == sh, 'static shape %s, expected %s', e.get_shape(), sh)
        with tf.Session() as s:
            if init:
                s.run(init)
            out.append(s.run(e))
            out.append(s.run(t.extract()))
        return tf.constant(0)
    out = []
    what = '%s extract (shape %s, ranks %s, %s factors %s, %s)' % (case['kind'], sh, ranks, case['factor_form'], dt,
                                                                   case['weights'] if kr_ else case['other_form'])
    run(what, build)
    if kr_:
        ref = cp_full(F, lam)
        mag = cp_full([np.abs(f) for f in F], None if lam is None else np.abs(lam))
    else:
        ref = ttm(core.astype('float64'), [f.astype('float64') for f in F])
        mag = ttm(np.abs(core).astype('float64'), [np.abs(f).astype('float64') for f in F])
    eps = 3e-6 if dt == 'float32' else 1e-13
    for o in out:
        near(o, ref, what, 0, eps * (n + 1) * mag)
        ensure(np.asarray(o).dtype == np.dtype(dt), '%s: the result is %s', what, np.asarray(o).dtype)
    for f, g in zip(F, orig):
        ensure(np.array_equal(f, g), 'a factor array was changed')
    lab = [case['kind'], 'order=%d' % n, 'factors: ' + case['factor_form'], 'dtype=' + dt]
    if kr_:
        lab.append('weights: ' + case['weights'])
        if lam is not None and wdt != dt:
            lab.append('weights of another dtype')
    return lab


def nontrivial(case, labels):
    return case['R'] >= 2 if case['kind'] == 'kruskal' else int(np.prod(case['ranks'])) >= 2
