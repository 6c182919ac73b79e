"""C18: training stops exactly when the documented criteria say so"""
import numpy as np

from harness import gen, models
from harness.core import ensure, fro

RULE = ('the four iterative decompositions with 1-60 steps and tolerances from 0 to 0.9 on data at several scales; the stop rule (relative '
        'residual below tol, or three consecutive objective changes below tol relative to 1 + the reference objective) is replayed over '
        'the returned history, decisions too close to the tolerance for the precision of the history counted as free. Non-trivial: more than one '
        'step and tol > 0.')
CASES = {'quick': 1000, 'thorough': 15000}


def strategy(st, tier):
    usual = models.model_case(st, models.ITER, maxsize=150, maxrank=4, hi=4, maxdim=5, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()},
        steps=st.sampled_from([1, 2, 3, 4, 5, 6, 8, 10, 15, 25, 60, 250]), vi=st.sampled_from([-1, 1, 2, 3, 7]), verbose=st.booleans(),
        # a step to stall at: the tolerance is then the largest of the three changes before it in a training without tolerance, and a little more
        aim=gen.mix(st, (2, st.just(0)), (1, gen.mix(st, (3, gen.pick(st, 3, 12)), (1, gen.pick(st, 13, 60)), (1, st.builds(lambda a, b: a + b, st.sampled_from([20, 50, 100]), gen.pick(st, 0, 3)))))),
        tol=st.sampled_from([0.0, 1e-5, 1e-4, 1e-3, 1e-2, 0.03, 0.1, 0.2, 0.3, 0.4, 0.5, 0.7, 0.9]))))
    # slow convergence, so that the changes of late steps are well above rounding
    late = st.fixed_dictionaries(dict(
        kind=st.sampled_from(['ncp', 'ntucker', 'cp']), shape=gen.sized(st, gen.pick(st, 9, 11), 3, 3), ranks=gen.sized(st, gen.pick(st, 4, 8), 3, 3), fill=st.just(0), data=st.sampled_from(['unit', 'possparse']),
        dtype=st.just('float64'), dseed=gen.seeds(st), gseed=st.integers(0, 10 ** 6), style=st.just(0), steps=st.just(1), vi=st.sampled_from([-1, 7]), verbose=st.just(False),
        aim=st.builds(lambda a, b: a + b, st.sampled_from([20, 30, 40, 50, 64, 100, 100, 100]), gen.pick(st, 0, 2)), tol=st.just(0.0)))
    return gen.mix(st, (7, usual), (1, late))


def aimed(kind, rel, norm, aim):
    """-> the tolerance, between two changes seen in a training without one, that should stop it nearest to the step aim"""
    o = 0.5 * (rel * norm) ** 2
    refs = np.concatenate([[o[0] + 1], o[:-1] if kind in ('cp', 'hooi') else np.minimum.accumulate(o[:-1])])
    change = np.abs(o - refs) / (refs + 1)
    err = 3e-6 * o[0] / (o[0] + 1)
    levels = np.sort(change[change > 1e-9])
    best = (10 ** 9, 0.0, 0)
    for lo, hi in zip(levels[:-1], levels[1:]):
        tol, n = (lo + hi) / 2, 0
        if hi - lo < 2.2 * err:
            continue
        for k in range(len(rel)):
            n = n + 1 if change[k] < tol else 0
            if n >= 3 or rel[k] < tol:
                best = min(best, (abs(k + 1 - aim), float(tol), k + 1 if n >= 3 else 0))
                break
    return best[1:]


def check(case):
    kind, X, ranks, fill = models.setup(case)
    steps, tol = case['steps'], case['tol']
    lab = ['kind=' + kind]
    if case['aim']:
        free = models.fit(kind, X, ranks, case['aim'] + 8, case['gseed'], 0.0, -1, False, style=case['style'])
        tol, stop = aimed(kind, free.rel(), fro(X), case['aim'])
        steps = max(stop, case['aim']) + 3
        if stop:
            lab += ['aimed stall', 'aimed late stall'] if stop >= 50 else ['aimed stall']
    what = models.describe(kind, X, ranks, steps, tol=tol)
    r = models.fit(kind, X, ranks, steps, case['gseed'], tol, case['vi'], case['verbose'], style=case['style'])
    h = r.hist
    n = len(h)
    ensure(1 <= n <= steps, '%s: %d history entries for %d steps', what, n, steps)
    for e in h:
        ensure(len(e) == 2 and all(np.isfinite(v) and v >= 0 for v in e), '%s: history entry %s', what, e)
    rel = r.rel()
    norm = fro(X)
    obj = 0.5 * (rel * norm) ** 2
    # at each step: which values can the stall counter have, given the precision of the history?
    stall = {0}
    ref = None
    amb = False
    for k in range(1, n + 1):
        o = obj[k - 1]
        if k == 1:
            refs = {o + 1}
        change = [abs(o - q) / (q + 1) for q in refs]
        err = max(1.5e-6 * (o + max(refs)) / (min(refs) + 1), 1e-12)
        yes = any(c < tol + err + 1e-6 * tol for c in change)
        no = any(c >= tol - err - 1e-6 * tol for c in change)
        if tol == 0:
            yes, no = False, True
        new = set()
        for s in stall:
            if yes:
                new.add(s + 1)
            if no:
                new.add(0)
        stall = new
        rs = rel[k - 1]
        rerr = 1e-6 * rs
        must = (rs < tol - rerr) or min(stall) >= 3
        may = (rs < tol + rerr and tol > 0) or max(stall) >= 3
        if k < n:
            ensure(not must, '%s: training went on after step %d of %d although %s (history %s)', what, k, n,
                   'the relative residual was %.3g' % rs if rs < tol else 'the objective had stalled for three steps',
                   np.round(rel[max(0, k - 4):k + 1], 8).tolist())
            stall = {s for s in stall if s < 3}
        elif k < steps:
            ensure(may, '%s: training stopped after step %d with relative residual %.6g and no stall of three steps (history %s)', what, k, rs,
                   np.round(rel[max(0, k - 4):], 8).tolist())
            lab.append('stopped: residual' if rs < tol else 'stopped: stall')
        else:
            lab.append('ran all steps')
        # the objective later steps are compared with: the previous one; the BCU methods keep the best so far
        if kind in ('cp', 'hooi'):
            refs = {o}
        else:
            nr = set()
            for q in refs:
                e = 1.5e-6 * (o + q)
                if o <= q + e:
                    nr.add(o)
                if o >= q - e:
                    nr.add(q)
            refs = nr
    if len(stall) > 1:
        lab.append('counter ambiguous')
    return lab


def nontrivial(case, labels):
    return case['steps'] > 1 and (case['tol'] > 0 or case['aim'] > 0)
