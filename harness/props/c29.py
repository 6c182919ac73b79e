"""C29: a longer training begins like a shorter one"""
import numpy as np

from harness import gen, models
from harness.core import ensure, near
from harness.props.c19 import same
from harness.sut import guard, tf

RULE = ('an iterative decomposition trained for k and for k+m steps (k 1-8, m 1-12) from one seed, in one model in either order or in two graphs, '
        'with tolerances 0 to 0.3 and different logging intervals; the shorter history must be the beginning of the longer one and the shorter '
        'result the state of the longer training after as many steps, and both the same when the shorter one met a stopping criterion. '
        'Non-trivial: two or more steps in the shorter training and the longer one went on.')
CASES = {'quick': 900, 'thorough': 9000}


def strategy(st, tier):
    return models.model_case(st, models.ITER, maxsize=150, maxrank=4, hi=5, maxdim=6, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()},
        k=gen.mix(st, (15, gen.pick(st, 1, 8)), (1, gen.pick(st, 20, 60))), m=gen.mix(st, (15, gen.pick(st, 1, 12)), (1, gen.pick(st, 30, 150))), tol=st.sampled_from([0.0, 0.0, 1e-4, 1e-2, 0.05, 0.3]), vi=st.sampled_from([-1, 1, 2, 3, 5]),
        how=st.sampled_from(['short first', 'long first', 'two graphs']))))


def check(case):
    kind, X, ranks, fill = models.setup(case)
    k, K, tol = case['k'], case['k'] + case['m'], case['tol']
    what = '%s against %d steps, %s' % (models.describe(kind, X, ranks, k, tol=tol, vi=case['vi']), K, case['how'])
    seen = []

    def make():
        tf.set_random_seed(case['gseed'])
        return models.build(kind, X, ranks, tol, case['vi'])

    def short(m):
        return models.Result(kind, m, m.train(k))

    def long(m):
        with models.watch(kind, m) as t:
            h = m.train(K)
        seen.extend(t.seen)
        return models.Result(kind, m, h)
    with guard(what):
        if case['how'] == 'two graphs':
            with tf.Graph().as_default():
                a = short(make())
            with tf.Graph().as_default():
                b = long(make())
        else:
            with tf.Graph().as_default():
                m = make()
                if case['how'] == 'short first':
                    a = short(m)
                    b = long(m)
                else:
                    b = long(m)
                    a = short(m)
    scale = float(np.max(np.abs(X)))
    n = len(a.hist)
    ensure(n <= k and len(b.hist) <= K and len(b.hist) >= n, '%s: histories of %d and %d entries', what, n, len(b.hist))
    # rounding may tip a stop or the acceptance of a step only where it is a tie; the histories are compared before that
    near(np.array(a.hist)[:, 1], np.array(b.hist)[:n, 1], '%s: relative residuals of the first %d steps' % (what, n), 0, 1e-4)
    near(np.array(a.hist)[:, 0], np.array(b.hist)[:n, 0], '%s: RMSE of the first %d steps' % (what, n), 0, 1e-4 * scale)
    lab = ['kind=' + kind, case['how'], 'tol=%g' % tol]
    if n < k:
        ensure(len(b.hist) == n, '%s: the shorter training met a stopping criterion at step %d, the longer one went on to %d', what, n, len(b.hist))
        same(a, b, what + ', both stopped', scale)
        lab.append('both stopped early')
    elif len(seen) == len(b.hist):
        s = seen[n - 1]
        if isinstance(s, tuple):
            r = models.Result.__new__(models.Result)
            r.kind, r.full, r.factors, r.core, r.lambdas, r.hist = kind, s[0], s[1], None, None, None
            s = r
        s.hist = b.hist[:n]
        same(a, s, '%s: result of %d steps against the state of the longer training' % (what, n), scale)
        lab.append('states compared')
    if len(b.hist) > n and n > 1:
        lab.append('continued')
    return lab


def nontrivial(case, labels):
    return 'continued' in labels
