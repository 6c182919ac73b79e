"""C11: full, factors, core/weights and the history of a trained model describe one and the same iterate"""
import numpy as np

from harness import gen, models
from harness.core import ensure

RULE = ('one of the five decompositions on data of order 2-5 with ranks below, at and above the mode sizes, 1-12 steps, every kind of '
        'logging interval and tolerances that make training stop early on logged and unlogged steps; trained once or twice. Non-trivial: '
        'rank above 1 in the model and more than one step (or HOSVD with a truncated mode).')
CASES = {'quick': 1300, 'thorough': 12000}


def strategy(st, tier):
    return models.model_case(st, models.ITER * 2 + ['hosvd'] * 2, large=12, share=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()},
        steps=gen.pick(st, 1, 12), vi=st.sampled_from([-1, 1, 2, 3, 4, 5, 7, 100, None]), verbose=st.sampled_from([False, False, True, None]),
        tol=st.sampled_from([0.0, 1e-4, 1e-3, 1e-2, 0.1, 0.3, 0.6, None]), twice=st.sampled_from([0, 0, 0, 1, 5]))))


def check(case):
    kind, X, ranks, fill = models.setup(case)
    steps = case['steps']
    what = models.describe(kind, X, ranks, steps, tol=case['tol'], vi=case['vi'], fill=fill)
    X0 = X.copy()
    with models.guard(what), models.tf.Graph().as_default():
        models.tf.set_random_seed(case['gseed'])
        m = models.build(kind, X, ranks, case['tol'], case['vi'], case['verbose'], style=case['style'])
        r = models.Result(kind, m, m.train(steps))
        models.check_coherent(r, X, ranks, what)
        if case['twice']:
            r = models.Result(kind, m, m.train(case['twice']))
            models.check_coherent(r, X, ranks, what + ' trained again')
    ensure(np.array_equal(X, X0), '%s: the input data was changed', what)
    lab = ['kind=' + kind, 'order=%d' % X.ndim, 'data ' + fill]
    if r.hist is not None:
        n = len(r.hist)
        if n < steps and not case['twice']:
            vi = case['vi']
            logged = case['verbose'] or n == 1 or (vi not in (-1, None) and n % vi == 0)
            lab.append('stopped early on %s step' % ('a logged' if logged else 'an unlogged'))
    if case['twice']:
        lab.append('trained twice')
    if any(q > d for q, d in zip([ranks[0]] * X.ndim if kind in ('cp', 'ncp') else ranks, X.shape)):
        lab.append('rank above a mode size')
    return lab


def nontrivial(case, labels):
    kind, X, ranks, _ = models.setup(case)
    return (max(ranks) > 1 if kind not in ('cp', 'ncp') else ranks[0] > 1) and (
        case['steps'] > 1 if kind != 'hosvd' else any(r < d for r, d in zip(ranks, X.shape)))
