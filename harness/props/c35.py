"""C35: what a training prints, and what the PITF procedures write to their files, is what happened"""
import contextlib
import glob
import io
import os
import re

import numpy as np

from harness import gen, models
from harness.core import data, ensure, rmse_nz
from harness.sut import Environment, PITF, PITF_np, Provider, case_dir, guard, tf

RULE = ('each decomposition, PITF and PITF_np trained once or twice with any logging interval, verbosity, tolerance and 1-60 steps, standard output captured: the '
        'lines of steps, parsed, must be those of the logged steps, once each, in order and with the values of the history (PITF: of the summary; '
        'PITF_np: of the returned records), the closing line must hold the number of steps run and the last values. Non-trivial: more than two steps.')
CASES = {'quick': 900, 'thorough': 9000}
NUM = r'([-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|nan|inf))'
STEP = re.compile(r'^\s*step\s*[=:]\s*(\d+)\s*,\s*(\w+)\s*[=:]\s*%s\s*,\s*(\w+)\s*[=:]\s*%s\s*$' % (NUM, NUM))


def strategy(st, tier):
    opts = dict(steps=st.sampled_from([7, 1, 2, 3, 4, 5, 12, 25, 60]), vi=st.sampled_from([2, -1, 1, 3, 4, 5, 20]), verbose=st.booleans(),
                tol=st.sampled_from([0.0, 0.0, 1e-4, 1e-2, 0.3]), again=st.sampled_from([0, 0, 1, 3]))
    five = models.model_case(st, models.ALL, maxsize=120, maxrank=3, hi=4, maxdim=5, large=12).flatmap(
        lambda c: st.fixed_dictionaries(dict({k: st.just(v) for k, v in c.items()}, **opts)))
    pitf = st.fixed_dictionaries(dict(opts, kind=st.sampled_from(['pitf', 'pitf_np']), shape=st.lists(gen.pick(st, 2, 5), min_size=3, max_size=3), seed=gen.seeds(st),
                                      n=gen.pick(st, 2, 8), scale=st.sampled_from([1.0, 100.0, 0.01])))
    return gen.mix(st, (3, five), (1, pitf))


def parse(out, names, what):
    """-> {step: (value of names[0], value of names[1])} in the order printed, and the closing lines"""
    steps, last = [], []
    for line in out.splitlines():
        m = STEP.match(line)
        if m:
            v = {m.group(2).lower(): float(m.group(3)), m.group(4).lower(): float(m.group(5))}
            ensure(set(v) == set(names), '%s: the line %r names %s, expected %s', what, line, sorted(v), names)
            steps.append((int(m.group(1)), v[names[0]], v[names[1]]))
        elif 'finish' in line and 'initial' not in line:
            last.append(line)
    return steps, last


def same(got, want, digits, what):
    ok = got == want or abs(got - want) <= 0.6 * 10.0 ** -digits + 1e-6 * abs(want) or got != got and want != want
    ensure(ok, '%s: printed %.12g, it is %.12g', what, got, want)


def value(line, name, what):
    m = re.search(name + r'\s*=\s*' + NUM, line)
    ensure(m, '%s: no %s in the closing line %r', what, name, line)
    return float(m.group(1))


def five(case):
    kind, X, ranks, fill = models.setup(case)
    lab = ['kind=' + kind]
    with tf.Graph().as_default():
        tf.set_random_seed(case['gseed'])
        with guard(models.describe(kind, X, ranks, case['steps'])):
            m = models.build(kind, X, ranks, case['tol'], case['vi'], case['verbose'], case_dir(), case['style'])
        for k in [case['steps']] + [case['again']] * bool(case['again']):
            what = models.describe(kind, X, ranks, k, tol=case['tol'], validation_internal=case['vi'], verbose=case['verbose'])
            text = io.StringIO()
            with guard(what), contextlib.redirect_stdout(text):
                h = m.train(k)
            r = models.Result(kind, m, h)
            steps, last = parse(text.getvalue(), ('rmse', 'relerr'), what)
            ensure(len(last) == 1 and text.getvalue().rstrip().endswith(last[0].rstrip()), '%s: closing lines %s', what, last)
            if kind == 'hosvd':
                ensure(not steps, '%s: lines of steps %s', what, steps)
                rm = rmse_nz(X, r.full)
                got = value(last[0], 'RMSE', what)
                ensure(abs(got - rm) <= 1e-6 + 2e-4 * rm + 2e-5 * r.magnitude(), '%s: printed RMSE %.8g, the RMSE of full is %.8g', what, got, rm)
                continue
            n = len(r.hist)
            want = [s for s in range(1, n + 1) if case['verbose'] or s in (1, k) or (case['vi'] > 0 and s % case['vi'] == 0)]
            ensure([s[0] for s in steps] == want, '%s, %d steps run: lines printed for steps %s, expected %s', what, n, [s[0] for s in steps], want)
            for s, rm, rel in steps:
                same(rm, r.hist[s - 1][0], 10, '%s: RMSE of step %d' % (what, s))
                same(rel, r.hist[s - 1][1], 10, '%s: relative residual of step %d' % (what, s))
            c = re.search(r'(\d+) steps', last[0])
            ensure(c and int(c.group(1)) == n, '%s: %d steps run, closing line %r', what, n, last[0])
            same(value(last[0], 'RMSE', what), r.hist[-1][0], 10, what + ': RMSE of the closing line')
            lab.append('early stop' if n < k else 'full run')
    return lab


def tensor(case):
    return data(case['shape'], 'normal', case['seed']) * case['scale'] + 0.25 * case['scale']


def records(name, what):
    """{index: array} of a file of '<index>, <array>' entries"""
    with open(name) as f:
        t = f.read()
    out = {}
    for m in re.finditer(r'^(\d+), (\[[^\]]*\])', t, re.M):
        ensure(int(m.group(1)) not in out, '%s: %s holds step %s twice', what, name, m.group(1))
        out[int(m.group(1))] = np.array([float(v) for v in m.group(2).strip('[]').split()])
    return out


def pitf(case):
    os.chdir(case_dir())
    T = tensor(case)
    sh, n = T.shape, case['n']
    worst = sum(n / sh[l] for l in (2, 0, 1))
    d_arg = 1.5 / worst * np.sqrt(T.size) / n
    t_arg = 0.05 * case['scale'] / np.sqrt(T.size)
    lab = ['kind=' + case['kind']]
    text = io.StringIO()
    if case['kind'] == 'pitf_np':
        K = case['steps']
        what = 'PITF_np, shape %s, %d samples, %d steps' % (sh, n, K)
        np.random.seed(case['seed'] % 2 ** 32)
        with guard(what), tf.Graph().as_default(), contextlib.redirect_stdout(text):
            y, X, Y, Z, If, Ef, Rf = PITF_np(Environment(Provider())).exact_recovery(
                PITF_np.PITF_np_Args(rank=1, delt=d_arg, tao=t_arg, sample_num=n, steps=K), T)
        steps, _ = parse(text.getvalue(), ('erate', 'loss'), what)
        ensure([s[0] for s in steps] == list(range(K)), '%s: lines printed for steps %s', what, [s[0] for s in steps])
        for s, e, l in steps:
            same(e, Ef[s], 8, '%s: error rate of step %d' % (what, s))
            same(l, Rf[s], 8, '%s: loss of step %d' % (what, s))
        for name in ('np_y.txt', 'np_e2.txt', 'np_X.txt'):
            ensure(os.path.exists(name), '%s: no file %s', what, name)
        ry, re2 = records('np_y.txt', what), records('np_e2.txt', what)
        ensure(sorted(ry) == list(range(K)) and sorted(re2) == list(range(K)), '%s: files hold the steps %s and %s', what, sorted(ry), sorted(re2))
        big = max(1e-300, max(float(np.max(np.abs(v))) for v in ry.values()))
        ensure(np.shape(ry[K - 1]) == (n,) and np.max(np.abs(ry[K - 1] - y)) <= 1e-6 * big + 1e-8, '%s: np_y.txt ends with %s, the dual vector is %s', what, ry[K - 1], y)
        # y moves by the step size times what is missing: y' - y + step * e2 is the same vector, the sampled data, at every step
        step = d_arg * n / np.sqrt(T.size)
        prev = np.zeros(n)
        first = None
        for k in range(K):
            e1 = (ry[k] - prev) / step + re2[k]
            first = e1 if first is None else first
            ensure(np.max(np.abs(e1 - first)) <= 1e-6 * (big / step + np.max(np.abs(first))) + 3e-8 * (1 + 1 / step), '%s: np_y.txt and np_e2.txt do not fit at step %d', what, k)
            prev = ry[k]
        return lab
    K = min(case['steps'], 12)
    n = min(n, 6)
    d_arg = 1.5 / sum(n / sh[l] for l in (2, 0, 1)) * np.sqrt(T.size) / n
    what = 'PITF, shape %s, %d samples, %d steps, validation_internal=%d' % (sh, n, K, case['vi'])
    path = os.path.join(case_dir(), 'sum')
    with guard(what), tf.Graph().as_default():
        tf.set_random_seed(case['seed'] % 1000)
        p = Provider()
        full = tf.constant(T.astype('float32'))
        p.full_tensor = lambda: full
        m = PITF(Environment(p, summary_path=path))
        m.build_model(PITF.PITF_Args(rank=1, delt=d_arg, tao=t_arg, sample_num=n, validation_internal=case['vi'], verbose=case['verbose']))
        with contextlib.redirect_stdout(text):
            m.train(K)
    ev = {}
    for f in glob.glob(os.path.join(path, '*tfevents*')):
        for e in tf.train.summary_iterator(f):
            for v in e.summary.value:
                ev[(e.step, 'erate' if 'error' in v.tag else 'rmse')] = v.simple_value
    steps, last = parse(text.getvalue(), ('erate', 'rmse'), what)
    want = [s for s in range(1, K + 1) if s in (1, K) or (case['vi'] > 0 and s % case['vi'] == 0)]
    ensure([s[0] for s in steps] == want, '%s: lines printed for steps %s, expected %s', what, [s[0] for s in steps], want)
    for s, e, l in steps:
        same(e, ev.get((s, 'erate'), np.inf), 8, '%s: error rate of step %d' % (what, s))
        same(l, ev.get((s, 'rmse'), np.inf), 8, '%s: RMSE of step %d' % (what, s))
    ensure(len(last) == 1, '%s: closing lines %s', what, last)
    same(value(last[0], 'RMSE', what), ev[(K, 'rmse')], 8, what + ': RMSE of the closing line')
    same(value(last[0], 'error rate', what), ev[(K, 'erate')], 8, what + ': error rate of the closing line')
    return lab


def check(case):
    return pitf(case) if case['kind'].startswith('pitf') else five(case)


def nontrivial(case, labels):
    return case['steps'] > 2 and case['kind'] != 'hosvd'
