"""C19: a model's result depends on its data, arguments and seed only, not on other models or earlier trainings"""
import copy

import numpy as np

from harness import gen, models
from harness.core import ensure, near
from harness.sut import guard, tf

RULE = ('a history of 2-7 build/train operations over two or three models (any of the five decompositions, same or different data objects) in '
        'separate graphs or in one shared graph, with arguments and environments of their own or shared, data arrays in any memory layout and writable or '
        'not, trained alternately and repeatedly; every repetition of a training must give what it gave first, '
        'in separate graphs also what a lone model gives; data arrays, argument lists and the other models\' results must stay as they were. '
        'Non-trivial: a model is trained after another model was built or trained in between.')
CASES = {'quick': 480, 'thorough': 5000}


def strategy(st, tier):
    one = models.model_case(st, models.ALL, maxsize=120, maxrank=3, hi=4, maxdim=5)
    return st.lists(one, min_size=2, max_size=3).flatmap(lambda ms: st.fixed_dictionaries(dict(
        models=st.just(ms), shared=st.booleans(), early=st.booleans(), same_data=st.booleans(), same_env=st.booleans(), same_args=st.booleans(),
        layout=st.sampled_from(['C', 'F', 'view', 'readonly']),
        ops=gen.sized(st, st.tuples(gen.pick(st, 0, len(ms) - 1), gen.pick(st, 1, 4)), 2, 6))))


def lay_out(X, how):
    if how == 'F':
        return np.asfortranarray(X)
    if how == 'view':
        big = np.full([2 * d for d in X.shape], 7, X.dtype)
        v = big[tuple(slice(None, None, 2) for _ in X.shape)]
        v[...] = X
        return v
    if how == 'readonly':
        X = X.copy()
        X.setflags(write=False)
    return X


def snapshot(kind, m, hist):
    return models.Result(kind, m, hist)


def same(a, b, what, scale):
    lim = 1e-4 * scale
    near(a.full, b.full, what + ': full', 0, lim)
    if a.hist is not None or b.hist is not None:
        ensure(a.hist is not None and b.hist is not None and len(a.hist) == len(b.hist), '%s: histories of different length', what)
        near(np.array(a.hist)[:, 1], np.array(b.hist)[:, 1], what + ': relative residuals', 0, 1e-4)
    for i, (f, g) in enumerate(zip(a.factors, b.factors)):
        near(f, g, '%s: factor %d' % (what, i), 1e-3, 1e-6)


def check(case):
    specs = []
    shared_data = None
    for c in case['models']:
        if case['same_data'] and shared_data is not None:
            c = dict(c, shape=specs[0][4]['shape'], ranks=(c['ranks'] * 5)[:len(specs[0][4]['shape'])])
        kind, X, ranks, fill = models.setup(c)
        if case['same_data']:
            if shared_data is None:
                shared_data = np.abs(X) + (not np.any(X))
            X = shared_data
        else:
            X = lay_out(X, case['layout'])
        if case['same_data'] and shared_data is not None:
            X = shared_data = X if specs else lay_out(shared_data, case['layout'])
        specs.append((kind, X, ranks, X.copy(), c))
    args = []
    for kind, X, ranks, _, c in specs:
        again = [b for b, s in zip(args, specs) if case['same_args'] and s[0] == kind and len(s[2]) == len(ranks)]
        if again and kind in ('hosvd', 'hooi') and any(a > b for a, b in zip(again[0].ranks, models.clamp_ranks(kind, X.shape, again[0].ranks))):
            again = []
        args.append(again[0] if again else models.args_of(kind, ranks, 0.0))
    was = [copy.deepcopy(vars(b)) for b in args]
    for i, b in enumerate(args):  # the ranks in force
        kind, X, ranks, o, c = specs[i]
        specs[i] = (kind, X, [b.rank] * len(ranks) if hasattr(b, 'rank') else list(b.ranks), o, c)
    envs = {}

    def env(i):
        X = specs[i][1]
        if case['same_env'] and case['same_data']:
            return envs.setdefault(0, models.Environment(models.provider(X)))
        return models.Environment(models.provider(X, case['models'][i]['style']))
    graph = tf.Graph()
    built = {}
    first = {}
    latest = {}
    lab = ['shared graph' if case['shared'] else 'separate graphs', 'models=%d' % len(specs)]
    what = ', '.join(models.describe(k, X, r, '*') for k, X, r, _, _ in specs) + (' in one graph' if case['shared'] else ' in separate graphs')

    def build(i):
        kind, X, ranks, _, c = specs[i]
        g = graph if case['shared'] else tf.Graph()
        with g.as_default():
            tf.set_random_seed(c['gseed'])
            built[i] = (g, models.build(kind, X, ranks, env=env(i), args=args[i]))
    with guard(what):
        if case['early']:
            for i in range(len(specs)):
                build(i)
        for n, (i, k) in enumerate(case['ops']):
            if i not in built:
                build(i)
            kind, X, ranks, orig, c = specs[i]
            g, m = built[i]
            with g.as_default():
                h = m.train(k)
            r = snapshot(kind, m, h)
            scale = float(np.max(np.abs(X)))
            w = '%s, operation %d (model %d, %d steps)' % (what, n + 1, i, k)
            models.check_coherent(r, X, ranks, w)
            key = (i, k if kind != 'hosvd' else 0)
            if key in first:
                same(r, first[key], w + ' compared with the same training before', scale)
                lab.append('repeated training')
            else:
                first[key] = r
            latest[i] = (m, r)
            for j, (mj, rj) in latest.items():
                if j != i:
                    now = snapshot(specs[j][0], mj, rj.hist)
                    ensure(np.array_equal(now.full, rj.full) and all(np.array_equal(a, b) for a, b in zip(now.factors, rj.factors)),
                           '%s: training changed the results of model %d', w, j)
            for j, (_, Xj, _, oj, _) in enumerate(specs):
                ensure(np.array_equal(Xj, oj), '%s: the data array of model %d was changed', w, j)
                ensure(vars(args[j]) == was[j], '%s: the arguments of model %d were changed from %s to %s', w, j, was[j], vars(args[j]))
    if len({id(b) for b in args}) < len(args):
        lab.append('shared arguments')
    for (i, k), r in [f for f in sorted(first.items()) if not case['shared'] or specs[f[0][0]][0] == 'hosvd'][:2]:
        kind, X, ranks, _, c = specs[i]
        X = np.array(X, order='C')
        alone = models.fit(kind, X, ranks, max(k, 1), c['gseed'], tol=0.0)
        same(r, alone, '%s: model %d, %d steps, compared with the model alone' % (what, i, k), float(np.max(np.abs(X))))
    return lab


def nontrivial(case, labels):
    ids = [o[0] for o in case['ops']]
    return len(set(ids)) > 1 or case['early']
