"""C34: operands and requests that do not fit are refused, never answered"""
import os

import numpy as np

from harness import gen, models
from harness.core import data, exact, near
from harness.sut import DTensor, KTensor, TTensor, TensorReader, Violation, case_dir, guard, loss, ops, pitf_ops, tf

OPS = ['unfold', 'fold', 'fold entries', 't2mat', 'vec_to_tensor', 'mul', 'mul axis', 'mul several', 'inner', 'ttm', 'ttm transposed', 'ttm skipping', 'ttm axis', 'ttm count',
       'hadamard', 'khatri', 'khatri skipping', 'kron', 'kruskal', 'kruskal weights', 'tucker', 'tucker order', 'd add', 'd sub', 'd times', 'd mul',
       'd khatri', 'd unfold', 'd t2mat', 'd getitem', 'l2', 'rmse', 'rmse_ignore_zero', 'sampling', 'reader']
MODELS = ['ranks short', 'ranks fraction', 'args of another model', 'predict outside', 'predict long', 'train unbuilt']
RULE = ('a fitting call of an operator, tensor type, loss, reader or decomposition of order 1-5 and the same call with one operand, mode, size, rank or position '
        'that does not fit (a size off by one or more or one where it must be two or more, a mode or position the tensor has not, a mode left out or given twice, '
        'operands exchanged); the fitting call must answer, before and after, and the other must raise an exception when built or run. Non-trivial: order 2 or more.')
CASES = {'quick': 3000, 'thorough': 36000}


def strategy(st, tier):
    def f(sh):
        n = len(sh)
        return st.fixed_dictionaries(dict(
            name=gen.mix(st, (8, st.sampled_from(OPS)), (1, st.sampled_from(MODELS))), shape=st.just(sh), mode=gen.pick(st, 0, n - 1), rank=gen.pick(st, 1, 4),
            ranks=st.lists(gen.dims(st, 4), min_size=n, max_size=n), seed=gen.seeds(st), perm=gen.perms(st, n), cut=gen.pick(st, 0, n),
            rev=st.booleans(), off=gen.pick(st, 0, 3), at=gen.pick(st, 0, 4), how=gen.pick(st, 0, 5), kind=st.sampled_from(models.ALL),
            fed=st.booleans()))
    return gen.shapes(st, 1, 5, 5, 300).flatmap(f)


def other(d, off, one=True):
    """a size that is not d, and not 1 unless allowed"""
    c = [v for v in ((1,) if one else ()) + (d + 1, d + 2, d - 1, 2 * d) if v != d and v >= (1 if one else 2)]
    return c[off % len(c)]


def spoil(shapes, i, ax, off, one=True):
    out = [list(s) for s in shapes]
    out[i][ax] = other(out[i][ax], off, one)
    return out


def make(case):
    """-> (shapes and operator of the fitting call, shapes and operator of the other) or None if nothing can be wrong here"""
    sh, n, m, R, name = list(case['shape']), len(case['shape']), case['mode'], case['rank'], case['name']
    off, how = case['off'], case['how']
    size = int(np.prod(sh))
    i = case['at'] % n
    mats = [[d, R] for d in sh]
    ups = [[q, d] for q, d in zip(case['ranks'], sh)]
    downs = [[d, q] for q, d in zip(case['ranks'], sh)]
    swapped = [sh[k] for k in case['perm']]
    kw = dict(reverse=case['rev'])
    r, c = case['perm'][:max(1, case['cut'])], case['perm'][max(1, case['cut']):]
    if name in ('unfold', 'd unfold'):
        f = (lambda k: lambda x: ops.unfold(x, k)) if name == 'unfold' else lambda k: lambda x: DTensor(x).unfold(k).T
        return [sh], f(m), [sh], f(n + off)
    if name == 'fold':
        return [[sh[m], size // sh[m]]], lambda x: ops.fold(x, m, sh), [[sh[m], size // sh[m]]], lambda x: ops.fold(x, n + off, sh)
    if name == 'fold entries':
        return [[sh[m], size // sh[m]]], lambda x: ops.fold(x, m, sh), [[sh[m], other(size // sh[m], off)]], lambda x: ops.fold(x, m, sh)
    if name in ('t2mat', 'd t2mat'):
        f = (lambda a, b: lambda x: ops.t2mat(x, a, b)) if name == 't2mat' else lambda a, b: lambda x: DTensor(x).t2mat(a, b).T
        if not c:
            return None
        bad = [(r[1:], c), (r, c[:-1]), (r + c[:1], c), (r, c + r[:1]), (r, c[:-1] + [n + off]), (r[:-1] + [n + off], c)][how]
        if not (bad[0] and bad[1]):
            bad = (r + c[:1], c)
        return [sh], f(r, c), [sh], f(*bad)
    if name == 'vec_to_tensor':
        return [[size]], lambda x: ops.vec_to_tensor(x, sh), [[other(size, off)]], lambda x: ops.vec_to_tensor(x, sh)
    if name in ('mul', 'd mul'):
        f = (lambda x, y: ops.mul(x, y, m, 1)) if name == 'mul' else lambda x, y: DTensor(x).mul(DTensor(y), m, 1).T
        return [sh, [R, sh[m]]], f, spoil([sh, [R, sh[m]]], how % 2, 1 if how % 2 else m, off), f
    if name == 'mul several':
        axes = case['perm'][:max(1, case['cut'])]
        sizes = [sh[k] for k in axes]
        turned = sizes[1:] + sizes[:1]
        bad = [turned, [int(np.prod(sizes))], sizes[:1] + [int(np.prod(sizes[1:]))], sizes + [1 + off], sizes[:-1] or [sizes[0] + 1],
               sizes[:i % len(sizes)] + [other(sizes[i % len(sizes)], off)] + sizes[i % len(sizes) + 1:]][how]
        if bad == sizes:
            return None
        f = lambda k: lambda x, y: ops.mul(x, y, axes, list(range(k)))
        return [sh, sizes + [R]], f(len(sizes)), [sh, bad + [R]], f(len(bad))
    if name == 'mul axis':
        return [sh, [R, sh[m]]], lambda x, y: ops.mul(x, y, m, 1), [sh, [R, sh[m]]], (
            lambda x, y: ops.mul(x, y, n + off, 1)) if how % 2 else lambda x, y: ops.mul(x, y, m, 2 + off)
    if name in ('inner', 'l2', 'rmse', 'rmse_ignore_zero'):
        f = ops.inner if name == 'inner' else getattr(loss, name)
        bad = [spoil([sh, sh], how % 2, i, off), [sh, swapped], [swapped, sh], [sh, sh[1:]], [sh, [1] + sh], [sh, sh + [1]]][how]
        if name == 'l2' and broadcast(*bad) or bad[0] == bad[1]:  # l2 promises nothing for shapes that broadcast
            return None
        return [sh, sh], f, bad, f
    if name in ('ttm', 'ttm transposed', 'ttm skipping'):
        ms, ax = (downs, 0) if name == 'ttm transposed' else (ups, 1)
        skip = m if name == 'ttm skipping' and n > 1 else None
        if i == skip:
            i = (i + 1) % n
        f = lambda x, *a: ops.ttm(x, list(a), skip_matrices_index=skip, transpose=name == 'ttm transposed')
        return [sh] + ms, f, [sh] + spoil(ms, i, ax, off), f
    if name == 'ttm axis':
        return [sh, ups[m]], lambda x, a: ops.ttm(x, [a], axis=[m]), [sh, ups[m]], lambda x, a: ops.ttm(x, [a], axis=[n + off])
    if name == 'ttm count':
        if n < 2:
            return None
        j = (m + 1) % n
        a, b = [(lambda x, p, q: ops.ttm(x, [p, q], axis=[m])), (lambda x, p, q: ops.ttm(x, [p], axis=[m, j]))][how % 2], \
            lambda x, p, q: ops.ttm(x, [p, q], axis=[m, j])
        return [sh, ups[m], ups[j]], b, [sh, ups[m], ups[j]], a
    if name == 'hadamard':
        if n < 2:
            return None
        ms = [[sh[0] + 1, R + 1]] * n
        f = lambda *a: ops.hadamard(list(a))
        return ms, f, spoil(ms, i, how % 2, off, False), f
    if name in ('khatri', 'khatri skipping', 'kruskal', 'd khatri'):
        if n < 2:
            return None
        skip = m if name == 'khatri skipping' else None
        if i == skip:
            i = (i + 1) % n
        if skip is not None and n < 3:
            return None
        f = {'khatri': lambda *a: ops.khatri(list(a), **kw), 'khatri skipping': lambda *a: ops.khatri(list(a), skip, **kw),
             'kruskal': lambda *a: KTensor(list(a)).extract(), 'd khatri': lambda *a: DTensor(a[0]).khatri(DTensor(a[1])).T}[name]
        if name == 'd khatri':
            mats, i = mats[:2], i % 2
        return mats, f, spoil(mats, i, 1, off), f
    if name == 'kron':
        k = [s for s in ups[:3]]
        f = lambda *a: ops.kron(list(a), **kw)
        bad = [list(s) for s in k]
        bad[i % len(k)] = bad[i % len(k)] + [2]
        return k, f, bad, f
    if name == 'kruskal weights':
        f = lambda *a: KTensor(list(a[:-1]), a[-1]).extract()
        return mats + [[R]], f, mats + [[other(R, off)]], f
    if name == 'tucker':
        f = lambda g, *a: TTensor(g, list(a)).extract()
        return [case['ranks']] + downs, f, spoil([case['ranks']] + downs, [0, i + 1][how % 2], [i, 1][how % 2], off), f
    if name == 'tucker order':
        f = lambda g, *a: TTensor(g, list(a)).extract()
        return [case['ranks']] + downs, f, [case['ranks']] + downs + [[2, 2]] * (1 + off), f
    if name in ('d add', 'd sub', 'd times'):
        f = {'d add': lambda x, y: (DTensor(x) + DTensor(y)).T, 'd sub': lambda x, y: (DTensor(x) - DTensor(y)).T, 'd times': lambda x, y: (DTensor(x) * DTensor(y)).T}[name]
        bad = [spoil([sh, sh], how % 2, i, off), [sh, swapped]][how // 3]
        if broadcast(*bad):
            return None
        return [sh, sh], f, bad, f
    if name == 'd getitem':
        at = tuple(case['seed'] // (k + 1) % d for k, d in enumerate(sh))
        bad = list(at)
        bad[i] = sh[i] + off
        if how == 0:
            bad = list(at) + [0]
        return [sh], lambda x: DTensor(x)[at], [sh], lambda x: DTensor(x)[tuple(bad)]
    if name == 'sampling':
        s = (sh + [3, 2])[:3]
        spl = [np.random.RandomState((case['seed'] + k) % 2 ** 31).randint(0, s[k], 2 + R) for k in range(3)]
        bad = [np.array(a) for a in spl]
        bad[i % 3][how % (2 + R)] = s[i % 3] + off
        return [s], lambda x: tf.convert_to_tensor(pitf_ops.Pomega_tensor(spl, x, 2 + R)), [s], (
            lambda x: tf.convert_to_tensor(pitf_ops.Pomega_tensor(bad, x, 2 + R)))
    raise KeyError(name)


def broadcast(a, b):
    try:
        np.broadcast(np.empty(a), np.empty(b))
        return True
    except ValueError:
        return False


def evaluate(f, args, fed):
    with tf.Graph().as_default():
        ts = [tf.placeholder(a.dtype, a.shape) for a in args] if fed else [tf.constant(a) for a in args]
        out = f(*ts)
        with tf.Session() as s:
            return np.array(s.run(out, dict(zip(ts, args)) if fed else None))


def refused(what, f):
    try:
        r = f()
    except Violation:
        raise
    except Exception:
        return
    raise Violation('%s: answered with %s' % (what, 'an array of shape %s' % (np.shape(r),) if isinstance(r, np.ndarray) else repr(r)[:100]))


def operator(case):
    name = case['name']
    p = make(case)
    if p is None:
        return ['nothing to spoil']
    good, f, bad, g = p
    args = [data(s, 'ints', case['seed'] + 7 * k, 'float32' if name == 'sampling' else 'float64') for k, s in enumerate(good)]
    wrong = [data(s, 'ints', case['seed'] + 7 * k, 'float32' if name == 'sampling' else 'float64') for k, s in enumerate(bad)]
    what = '%s, fitting call with arguments of shapes %s' % (name, good)
    with guard(what):
        first = evaluate(f, args, case['fed'])
    refused('%s with arguments of shapes %s%s' % (name, bad, '' if good != bad else ' and a mode or position that does not fit'),
            lambda: evaluate(g, wrong, case['fed']))
    with guard(what + ', after a refused one'):
        again = evaluate(f, args, case['fed'])
    if not np.array_equal(again, first, equal_nan=True):
        exact(again, first, what + ', after a refused one')
    return ['name=' + name, 'fed' if case['fed'] else 'constants']


def reader(case):
    sh, n, off, how = case['shape'], len(case['shape']), case['off'], case['how']
    i = case['at'] % n
    rng = np.random.RandomState(case['seed'] % 2 ** 31)
    rows = {tuple(int(rng.randint(0, d)) for d in sh): int(rng.randint(1, 9)) for _ in range(1 + case['rank'])}
    lines = [','.join(map(str, k)) + ',%d' % v for k, v in rows.items()]
    at = case['mode'] % len(lines)
    cells = lines[at].split(',')
    bad, shape = list(lines), list(sh)
    kind = ['position outside', 'position negative', 'a word for a position', 'a word for a value', 'shape of fewer modes', 'shape of more modes'][how]
    if how == 0:
        cells[i] = str(sh[i] + off)
    elif how == 1:
        cells[i] = str(-1 - off)
    elif how == 2:
        cells[i] = 'x'
    elif how == 3:
        cells[-1] = 'x'
    elif how == 4:
        if n == 1:
            return ['nothing to spoil']
        shape = shape[1:]
    else:
        shape = shape + [2]
    bad[at] = ','.join(cells)
    path = os.path.join(case_dir(), 'x.csv')

    def read(ls, s):
        with open(path, 'w') as o:
            o.write('\n'.join(ls) + '\n')
        with tf.Graph().as_default():
            r = TensorReader(path)
            r.read(full_shape=s)
            with tf.Session() as ss:
                return np.array(ss.run(r.full_data))
    want = np.zeros(sh)
    for k, v in rows.items():
        want[k] = v
    with guard('reading %s as %s' % (lines, sh)):
        exact(read(lines, sh), want, 'reading %s as %s' % (lines, sh))
    refused('reading %s as %s (%s)' % (bad, shape, kind), lambda: read(bad, shape))
    with guard('reading %s as %s after a refused file' % (lines, sh)):
        exact(read(lines, sh), want, 'reading %s as %s after a refused file' % (lines, sh))
    return ['name=reader', kind]


def model(case):
    name, kind, off = case['name'], case['kind'], case['off']
    sh = list(case['shape']) + [2] * (2 - len(case['shape']))
    X = data(sh, 'unit', case['seed'])
    ranks = models.clamp_ranks(kind, sh, (case['ranks'] + [2, 2])[:len(sh)])
    if name in ('ranks short', 'ranks fraction') and kind in ('cp', 'ncp'):
        if name == 'ranks short':
            return ['nothing to spoil']
    what = '%s of data of shape %s, ranks %s' % (kind, sh, ranks)
    zero = (0,) * len(sh)

    def go(m, args=None):
        m.build_model(models.args_of(kind, ranks, 0.0) if args is None else args)
        m.train(2)
        return np.array(m.full)

    def fresh():
        return models.CLS[kind](models.Environment(models.provider(X), summary_path=case_dir()))
    with guard(what), tf.Graph().as_default():
        tf.set_random_seed(7)
        m = fresh()
        first = go(m)
    if name == 'ranks short':
        # leaving out a rank
        short = ranks[:-1]

        def f():
            with tf.Graph().as_default():
                return go(fresh(), models.args_of(kind, short, 0.0))
        refused('%s with ranks %s' % (what, short), f)
    elif name == 'ranks fraction':
        half = [r + 0.5 if k == case['at'] % len(ranks) or kind in ('cp', 'ncp') else r for k, r in enumerate(ranks)]

        def f():
            with tf.Graph().as_default():
                return go(fresh(), models.args_of(kind, half, 0.0))
        refused('%s with ranks %s' % (what, half), f)
    elif name == 'args of another model':
        o = [k for k in models.ALL if ('p' in k) != ('p' in kind) or k == 'ntucker' and kind != 'ntucker' and kind != 'hosvd'][off % 2]
        if kind == 'hosvd' and o not in ('cp', 'ncp'):
            return ['nothing to spoil']

        def f():
            with tf.Graph().as_default():
                return go(fresh(), models.args_of(o, ranks, 0.0))
        refused('%s with the arguments of %s' % (what, o), f)
    elif name == 'train unbuilt':
        def f():
            with tf.Graph().as_default():
                fr = fresh()
                fr.train(2)
                return np.array(fr.full)
        refused(what + ': train before build_model', f)
    else:
        pos = list(zero)
        if name == 'predict long':
            pos += [0] * (1 + off)
        else:
            pos[case['at'] % len(sh)] = sh[case['at'] % len(sh)] + off
        refused('%s: predict%s' % (what, tuple(pos)), lambda: m.predict(*pos))
        with guard(what + ': predict after a refused one'):
            near(np.asarray(m.predict(*zero)), first[zero], what + ': predict after a refused one', 0)
            exact(np.array(m.full), first, what + ': full after a refused predict')
        return ['name=' + name, 'kind=' + kind]
    with guard(what + ', after a refused one'), tf.Graph().as_default():
        tf.set_random_seed(7)
        exact(go(fresh()), first, what + ', after a refused one')
    return ['name=' + name, 'kind=' + kind]


def check(case):
    if case['name'] == 'reader':
        return reader(case)
    return model(case) if case['name'] in MODELS else operator(case)


def nontrivial(case, labels):
    return 'nothing to spoil' not in labels and len(case['shape']) >= 2
