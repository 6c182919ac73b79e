"""C12: predict answers with the entry of full, and refuses before training"""
import numpy as np

from harness import gen, models
from harness.core import ensure
from harness.sut import guard, tf, TensorErr, raises

RULE = ('one of the five decompositions, 1-6 steps; predict before build_model, after it, and after training (and training again) at '
        'up to ten generated positions, given as int or numpy integers, and at the corners. Non-trivial: data with at least two modes of '
        'size >= 2.')
CASES = {'quick': 1300, 'thorough': 12000}


def strategy(st, tier):
    return models.model_case(st, models.ALL, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()},
        steps=gen.pick(st, 1, 6), vi=st.sampled_from([-1, 1, 2, 3]), tol=st.sampled_from([0.0, 1e-4, 0.3]),
        at=st.lists(st.lists(gen.pick(st, 0, 69), min_size=len(c['shape']), max_size=len(c['shape'])), min_size=1, max_size=10),
        again=st.booleans(), npint=st.booleans())))


def check(case):
    kind, X, ranks, fill = models.setup(case)
    what = models.describe(kind, X, ranks, case['steps'], tol=case['tol'], vi=case['vi'])
    zero = (0,) * X.ndim
    with guard(what), tf.Graph().as_default():
        tf.set_random_seed(case['gseed'])
        m = models.CLS[kind](models.Environment(models.provider(X, case['style'])))
        raises(TensorErr, lambda: m.predict(*zero), '%s: predict before build_model' % what)
        m.build_model(models.args_of(kind, ranks, case['tol'], case['vi']))
        raises(TensorErr, lambda: m.predict(*zero), '%s: predict before train' % what)
        for k in range(2 if case['again'] else 1):
            m.train(case['steps'] + k)
            full = np.asarray(m.full)
            ensure(full.shape == X.shape, '%s: full has shape %s', what, full.shape)
            pos = [tuple(int(v) % d for v, d in zip(p, X.shape)) for p in case['at']] + [zero, tuple(d - 1 for d in X.shape)]
            for p in pos:
                key = tuple(np.int64(v) for v in p) if case['npint'] else p
                got = m.predict(*key)
                ensure(np.ndim(got) == 0 and float(got) == float(full[p]), '%s: predict%s is %r, full there is %r', what, p, got,
                       full[p].item())
    return ['kind=' + kind, 'order=%d' % X.ndim, 'trained again' if case['again'] else 'trained once']


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2
