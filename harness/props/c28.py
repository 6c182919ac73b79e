"""C28: life cycle of a model: nothing before training, finished only after a completed training, usable after a failed one"""
import numpy as np

from harness import gen, models
from harness.core import ensure
from harness.props.c19 import same
from harness.sut import guard, tf, TensorErr, raises

RULE = ('one of the five decompositions, 1-6 steps, trained completely, interrupted, interrupted at each of its session calls in turn, or a mix of these (histories of 2-4); a training is '
        'interrupted by an exception (RuntimeError, KeyboardInterrupt, a TensorFlow error) raised in place of a generated session call, the '
        'first and the last included; public state is read before building, before training, at every session call and after every training. '
        'Non-trivial: at least one training is interrupted and a later one completes.')
CASES = {'quick': 640, 'thorough': 7000}
ERRORS = {'RuntimeError': lambda: RuntimeError('injected'), 'KeyboardInterrupt': lambda: KeyboardInterrupt(),
          'ResourceExhausted': lambda: tf.errors.ResourceExhaustedError(None, None, 'injected')}


def strategy(st, tier):
    # a training: completed, or interrupted at this part of its session calls; -1: interrupted at each of its calls in turn
    t = st.one_of(st.none(), st.tuples(st.one_of(st.just(-1), gen.pick(st, 0, 9)), st.sampled_from(sorted(ERRORS))).map(list))
    return models.model_case(st, models.ALL, maxsize=120, maxrank=3, hi=4, maxdim=5).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()},
        steps=st.one_of(gen.pick(st, 1, 2), gen.pick(st, 3, 6)), vi=st.sampled_from([-1, 1, 2, 3]), runs=gen.sized(st, t, 2, 4))))


class Calls(object):
    """counts the session calls, looks at the model at each, and may raise instead of one of them"""

    def __init__(self, model, at=None, error=None):
        self.model, self.at, self.error, self.n, self.flags = model, at, error, 0, []

    def __enter__(self):
        self.real = tf.Session.run
        me = self

        def run(sess, *a, **k):
            me.flags.append(bool(me.model.train_finish))
            me.n += 1
            if me.at is not None and me.n - 1 == me.at:
                raise me.error
            return me.real(sess, *a, **k)
        tf.Session.run = run
        return self

    def __exit__(self, *a):
        tf.Session.run = self.real
        return False


def empty(kind, m, what):
    for name in ('full', 'factors') + (('lambdas',) if kind in ('cp', 'ncp') else ('core',)):
        v = getattr(m, name)
        ensure(v is None, '%s: %s is %r', what, name, type(v))
    ensure(not m.train_finish, '%s: train_finish is %r', what, m.train_finish)


def interrupt(m, steps, at, name, total, zero, done, w):
    error = ERRORS[name]()
    with Calls(m, at, error) as c:
        try:
            m.train(steps)
        except BaseException as e:
            ensure(e is error, '%s: the injected error became %s: %s', w, type(e).__name__, e)
        else:
            ensure(c.n <= at, '%s: the injected error was swallowed', w)
            return 'fault not reached'
    ensure(not any(c.flags), '%s: train_finish is true while the training runs', w)
    ensure(not m.train_finish, '%s: train_finish is true after a training that failed', w)
    if at == 0 and not done:
        raises(TensorErr, lambda: m.predict(*zero), '%s: predict after a training that failed at its start' % w)
    return 'failure at %s call' % ('the first' if at == 0 else 'the last' if at == total - 1 else 'an inner')


def check(case):
    kind, X, ranks, fill = models.setup(case)
    steps = case['steps']
    what = models.describe(kind, X, ranks, steps, vi=case['vi'])
    zero = (0,) * X.ndim
    scale = float(np.max(np.abs(X)))
    # an undisturbed training
    with guard(what), tf.Graph().as_default():
        tf.set_random_seed(case['gseed'])
        m = models.build(kind, X, ranks, 0.0, case['vi'])
        with Calls(m) as c:
            h = m.train(steps)
        calm, total = models.Result(kind, m, h), c.n
        ensure(not any(c.flags), '%s: train_finish is true while the training runs', what)
    lab = ['kind=' + kind, 'session calls=%d' % min(total, 9)]
    done = False
    with guard(what), tf.Graph().as_default():
        tf.set_random_seed(case['gseed'])
        m = models.CLS[kind](models.Environment(models.provider(X, case['style'])))
        empty(kind, m, '%s: before build_model' % what)
        m.build_model(models.args_of(kind, ranks, 0.0, case['vi']))
        empty(kind, m, '%s: before training' % what)
        for i, r in enumerate(case['runs']):
            w = '%s, training %d of %s' % (what, i + 1, case['runs'])
            if r is None:
                with Calls(m) as c:
                    h = m.train(steps)
                got = models.Result(kind, m, h)
                ensure(bool(m.train_finish), '%s: train_finish is %r after a completed training', w, m.train_finish)
                ensure(not any(c.flags), '%s: train_finish is true while the training runs', w)
                models.check_coherent(got, X, ranks, w)
                same(got, calm, w + ' compared with an undisturbed one', scale)
                if done == 'failed':
                    lab.append('completed after a failure')
                done = True
            else:
                names = sorted(ERRORS)
                first = names.index(r[1])
                for k in (range(total) if r[0] < 0 else [r[0] * (total - 1) // 9]):
                    name = names[(first + (k if r[0] < 0 else 0)) % len(names)]
                    lab.append(interrupt(m, steps, k, name, total, zero, done, '%s, %s at session call %d of %d' % (w, name, k + 1, total)))
                done = 'failed'
    if kind == 'hosvd':
        lab.append('no history')
    return lab


def nontrivial(case, labels):
    return 'completed after a failure' in labels
