"""C30: trainings that overlap in time do not influence one another"""
import os
import sys
import threading

import numpy as np

from harness import gen, models
from harness.core import ensure
from harness.props.c19 import same
from harness.sut import REPO, guard, tf

RULE = ('two or three decompositions in threads of their own, built and trained (in separate graphs) or only trained (in one graph) at the same time under a '
        'generated schedule: a thread can be suspended at every session call, every request for the data and, in half of the cases, every call of a '
        'function of the library; the schedule names the other thread that goes on and for how many such points. Data, environment and argument objects '
        'are shared or not. Every result must be the one of the model alone. Non-trivial: the schedule switched between unfinished threads at least '
        'three times.')
CASES = {'quick': 400, 'thorough': 5000}
ROOT = os.path.join(os.path.realpath(REPO), 'tensorD') + os.sep


def strategy(st, tier):
    one = models.model_case(st, models.ALL, maxsize=100, maxrank=3, hi=4, maxdim=5)
    return st.fixed_dictionaries(dict(
        models=gen.sized(st, one, 2, 3), steps=gen.sized(st, gen.pick(st, 1, 6), 3, 3), twins=st.booleans(), one_graph=st.booleans(),
        same_env=st.booleans(), same_args=st.booleans(), fine=st.booleans(), vi=st.sampled_from([-1, 1, 2]),
        schedule=gen.sized(st, st.tuples(gen.pick(st, 0, 2), st.one_of(gen.pick(st, 1, 3), gen.pick(st, 1, 40))), 2, 12)))


class Baton(object):
    """one thread runs at a time; it hands over at points the schedule chooses"""

    def __init__(self, schedule, fine):
        self.schedule, self.fine, self.tasks, self.local, self.switches = list(schedule), fine, [], threading.local(), 0

    def point(self):
        """a point at which the running thread may be suspended"""
        t = getattr(self.local, 'task', None)
        if t is not None:
            t['left'] -= 1
            if t['left'] <= 0:
                self.back.release()
                if not t['go'].acquire(timeout=300):
                    raise RuntimeError('schedule stalled')

    def profile(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(ROOT):
            self.point()

    def body(self, t, job):
        t['go'].acquire(timeout=300)
        self.local.task = t
        try:
            if self.fine:
                sys.setprofile(self.profile)
            t['result'] = job()
        except BaseException as e:
            t['error'] = e
        finally:
            sys.setprofile(None)
            self.local.task = None
            t['done'] = True
            self.back.release()

    def run(self, jobs):
        self.back = threading.Semaphore(0)
        self.tasks = [dict(go=threading.Semaphore(0), left=0, done=False, result=None, error=None) for _ in jobs]
        for t, j in zip(self.tasks, jobs):
            threading.Thread(target=self.body, args=(t, j), daemon=True).start()
        real, me, last, n = tf.Session.run, self, None, 0

        def run(sess, *a, **k):
            me.point()
            return real(sess, *a, **k)
        tf.Session.run = run
        try:
            while not all(t['done'] for t in self.tasks):
                alive = [t for t in self.tasks if not t['done']]
                pick, burst = self.schedule[n % len(self.schedule)]
                n += 1
                others = [t for t in alive if t is not last] or alive
                t, burst = others[pick % len(others)], burst if self.fine else 1 + burst // 20
                self.switches += last is not None and last is not t and not last['done']
                last, t['left'] = t, burst
                t['go'].release()
                if not self.back.acquire(timeout=300):
                    raise RuntimeError('schedule stalled')
        finally:
            tf.Session.run = real
        for t in self.tasks:
            if t['error'] is not None:
                raise t['error']
        return [t['result'] for t in self.tasks]


def check(case):
    specs, args, envs = [], [], []
    baton = Baton(case['schedule'], case['fine'])
    for i, c in enumerate(case['models']):
        if case['twins'] and i:  # the same model and data, with another seed
            c = dict(case['models'][0], gseed=c['gseed'])
        kind, X, ranks, fill = models.setup(c)
        if case['twins'] and i:
            X = specs[0][1]
        specs.append((kind, X, ranks, c['gseed'], case['steps'][i]))
        alike = case['twins'] and i
        args.append(args[0] if alike and case['same_args'] else models.args_of(kind, ranks, 0.0, case['vi']))
        p = models.Provider()

        def full_tensor(X=X):
            baton.point()
            return X
        p.full_tensor = full_tensor
        envs.append(envs[0] if alike and case['same_env'] else models.Environment(p))
    what = '%s overlapping%s' % (', '.join(models.describe(k, X, r, n, vi=case['vi']) for k, X, r, _, n in specs), ', one graph' if case['one_graph'] else '')
    was = [X.copy() for _, X, _, _, _ in specs]

    def build(i):
        kind, X, ranks, seed, steps = specs[i]
        tf.set_random_seed(seed)
        return models.build(kind, X, ranks, env=envs[i], args=args[i])

    def lone(i):
        with tf.Graph().as_default():
            m = build(i)
            return models.Result(specs[i][0], m, m.train(specs[i][4]))

    def train(i, m):
        return models.Result(specs[i][0], m, m.train(specs[i][4]))

    with guard(what):
        if case['one_graph']:
            with tf.Graph().as_default() as g:
                ms = [build(i) for i in range(len(specs))]
                calm = [train(i, m) for i, m in enumerate(ms)]

            def job(i):
                with g.as_default():
                    return train(i, ms[i])
        else:
            calm = [lone(i) for i in range(len(specs))]

            def job(i):
                return lone(i)
        got = baton.run([lambda i=i: job(i) for i in range(len(specs))])
    for i, (r, c) in enumerate(zip(got, calm)):
        w = '%s: model %d' % (what, i)
        models.check_coherent(r, specs[i][1], specs[i][2], w)
        same(r, c, w + ' compared with the model alone', float(np.max(np.abs(was[i]))))
        ensure(np.array_equal(specs[i][1], was[i]), '%s: its data array was changed', w)
    lab = ['kind=' + s[0] for s in specs] + ['one graph' if case['one_graph'] else 'separate graphs', 'switches=%d' % min(baton.switches, 10)]
    if case['fine']:
        lab.append('suspended at any call')
    if case['twins']:
        lab.append('same kind and data')
    if baton.switches >= 3:
        lab.append('interleaved')
    return lab


def nontrivial(case, labels):
    return 'interleaved' in labels
