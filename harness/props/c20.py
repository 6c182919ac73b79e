"""C20: logging options never influence the result, and the summary records the logged steps exactly"""
import glob
import os

import numpy as np

from harness import gen, models
from harness.core import ensure, near, rmse_nz
from harness.sut import case_dir, guard, tf

RULE = ('each decomposition trained twice from the same seed with two settings of validation_internal and verbose, once with a summary directory, '
        'alone or next to a second model in the same graph with its own directory; 1-12 steps, tolerances that may stop early. The event file is '
        'read back. Non-trivial: more than two steps and a logging interval between 2 and the number of steps, or verbose.')
CASES = {'quick': 700, 'thorough': 7000}


def strategy(st, tier):
    return models.model_case(st, models.ALL, maxsize=120, maxrank=3, hi=4, maxdim=5, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()}, steps=st.sampled_from([7, 1, 2, 3, 4, 5, 12, 60]), vi=st.sampled_from([2, -1, 1, 3, 4, 5, 20]),
        verbose=st.booleans(), vi2=st.sampled_from([-1, 1, 3, 7]), verbose2=st.booleans(), tol=st.sampled_from([0.0, 0.0, 1e-4, 1e-2, 0.3]),
        pair=st.sampled_from([None, None, 'cp', 'hooi', 'hosvd', 'ncp', 'ntucker']), before=st.booleans())))


def read(path, what):
    files = glob.glob(os.path.join(path, '*tfevents*'))
    ensure(len(files) == 1, '%s: %d event files', what, len(files))
    out = {}
    for e in tf.train.summary_iterator(files[0]):
        for v in e.summary.value:
            name = 'loss' if 'loss' in v.tag else 'rel' if 'relative_residual' in v.tag else v.tag
            ensure((e.step, name) not in out, '%s: %s recorded twice for step %d', what, name, e.step)
            out[(e.step, name)] = v.simple_value
    return out


def check(case):
    kind, X, ranks, fill = models.setup(case)
    K, tol, vi, verbose = case['steps'], case['tol'], case['vi'], case['verbose']
    what = models.describe(kind, X, ranks, K, tol=tol, validation_internal=vi, verbose=verbose)
    path = os.path.join(case_dir(), 'a')
    pair = case['pair']

    def other(train):
        r2 = models.clamp_ranks(pair, X.shape, [2] * X.ndim)
        m2 = models.build(pair, np.abs(X) + 1, r2, 0.0, path=os.path.join(case_dir(), 'b'))
        if train:
            m2.train(2)
        return m2
    with guard(what), tf.Graph().as_default():
        if pair and case['before']:
            other(True)
        tf.set_random_seed(case['gseed'])
        m = models.build(kind, X, ranks, tol, vi, verbose, path, case['style'])
        if pair and not case['before']:
            other(True)
        a = models.Result(kind, m, m.train(K))
    models.check_coherent(a, X, ranks, what)
    lab = ['kind=' + kind, 'alone' if not pair else 'second model in the graph']
    if not (pair and case['before']):
        b = models.fit(kind, X, ranks, K, case['gseed'], tol, case['vi2'], case['verbose2'], style=case['style'])
        w = '%s against validation_internal=%s, verbose=%s' % (what, case['vi2'], case['verbose2'])
        scale = float(np.max(np.abs(X)))
        near(a.full, b.full, w + ': full', 0, 1e-4 * scale)
        if kind != 'hosvd':
            ensure(len(a.hist) == len(b.hist), '%s: %d steps against %d', w, len(a.hist), len(b.hist))
            near(np.array(a.hist)[:, 1], np.array(b.hist)[:, 1], w + ': relative residuals', 0, 1e-4)
        lab.append('options compared')
    ev = read(path, what)
    if kind == 'hosvd':
        ensure(sorted(ev) == [(1, 'loss')], '%s: summary entries %s, expected the loss at step 1', what, sorted(ev))
        rm = rmse_nz(X, a.full)
        ensure(abs(ev[(1, 'loss')] - rm) <= 2e-4 * rm + 2e-5 * a.magnitude(), '%s: recorded loss %.8g, RMSE of full %.8g', what, ev[(1, 'loss')], rm)
        return lab
    n = len(a.hist)
    want = [k for k in range(1, n + 1) if verbose or k == 1 or k == K or (vi > 0 and k % vi == 0)]
    for name, col in (('loss', 0), ('rel', 1)):
        got = sorted(k for k, s in ev if s == name)
        ensure(got == want, '%s, %d steps run: %s recorded for steps %s, expected %s', what, n, name, got, want)
        for k in want:
            ensure(abs(ev[(k, name)] - a.hist[k - 1][col]) <= 1e-5 * abs(a.hist[k - 1][col]) + 1e-9, '%s: %s of step %d recorded as %.8g, history has %.8g',
                   what, name, k, ev[(k, name)], a.hist[k - 1][col])
    extra = set(s for k, s in ev) - {'loss', 'rel'}
    ensure(not extra, '%s: unexpected summary values %s', what, sorted(extra))
    lab.append('early stop' if n < K else 'full run')
    return lab


def nontrivial(case, labels):
    return case['steps'] > 2 and (case['verbose'] or 2 <= case['vi'] <= case['steps'])
