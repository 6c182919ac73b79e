"""C07: a DTensor behaves like the array it wraps over any sequence of method calls"""
import numpy as np

from harness import gen
from harness.core import data, near, unf, kr, kron, ensure
from harness.sut import tf, guard, DTensor

RULE = ('a program of 3-14 DTensor operations over a growing pool of tensors (unfold, fold, t2mat, vectorize, mul, kron, khatri, '
        '+, -, * with operands of the same or a smaller, repeated shape, indexing with positions, ranges, steps, negative ones and new axes, shape queries, eval), operands chosen from the pool so methods are called repeatedly on one object; a '
        'pool of NumPy arrays is the model and every member is compared after the whole program (a wrapped placeholder again under a second feed). Non-trivial: at least '
        'four applicable operations.')
CASES = {'quick': 3600, 'thorough': 50000}
OPS = ['unfold', 'unfold', 'unfold', 't2mat', 'vectorize', 'mul', 'kron', 'khatri', 'add', 'sub', 'hmul', 'getitem', 'fold', 'shape',
       'eval', 'unfold_default']


def strategy(st, tier):
    step = st.tuples(st.sampled_from(OPS), gen.pick(st, 0, 11), gen.pick(st, 0, 11), gen.pick(st, 0, 719),
                     gen.pick(st, 0, 5)).map(list)
    return st.fixed_dictionaries(dict(
        shape=gen.shapes(st, 1, 5, 4, 150), shape2=gen.shapes(st, 2, 2, 4), seed=gen.seeds(st),
        src=st.sampled_from(['ndarray', 'tensor', 'placeholder']), dtype=st.sampled_from(['float64', 'float32', 'int64']),
        prog=gen.sized(st, step, 3, 14)))


def perm_of(n, code):
    items, out = list(range(n)), []
    while items:
        code, r = divmod(code, len(items))
        out.append(items.pop(r))
    return out


def greedy(sa, sb, code):
    """axes of equal size of two shapes, each used once"""
    left = perm_of(len(sb), code)
    out = []
    for k in perm_of(len(sa), code // 2):
        for q in left:
            if sb[q] == sa[k]:
                out.append((k, q))
                left.remove(q)
                break
    return out[:1 + code % 3]


def check(case):
    dt = case['dtype']
    X = data(case['shape'], 'ints', case['seed'], dt)
    X0 = X.copy()
    feed = {}
    lab = ['src=' + case['src'], 'dtype=' + dt]
    applied = 0
    with tf.Graph().as_default():
        with guard('DTensor(...)'):
            if case['src'] == 'ndarray':
                d = DTensor(X)
            elif case['src'] == 'tensor':
                d = DTensor(tf.constant(X))
            else:
                ph = tf.placeholder(X.dtype, shape=X.shape)
                feed[ph] = X
                d = DTensor(ph)
            M0 = data(case['shape2'], 'ints', case['seed'] + 1, dt)
            Y0 = data(case['shape'], 'ints', case['seed'] + 2, dt)
            pool = [d, DTensor(M0), DTensor(Y0)]
        model = [X, M0, Y0]
        plain = []  # tensors that are not DTensors: results of indexing
        evals = []
        trace = []
        for op, i, j, code, form in case['prog']:
            i %= len(pool)
            j %= len(pool)
            a, A = pool[i], model[i]
            b, B = pool[j], model[j]
            n = A.ndim
            r = None
            what = 'step %d: %s on pool[%d] (shape %s)' % (len(trace) + 1, op, i, A.shape)
            with guard(what):
                if op == 'unfold' and n >= 1:
                    m = code % n
                    r, w = a.unfold(m), unf(A, m)
                elif op == 'unfold_default' and n >= 1:
                    r, w = a.unfold(), unf(A, 0)
                elif op == 't2mat' and n >= 1:
                    p = perm_of(n, code)
                    cut = 1 + form % n
                    rows, cols = p[:cut], p[cut:]
                    w = A.transpose(rows + cols).reshape(int(np.prod([A.shape[k] for k in rows])), -1)
                    r = a.t2mat(rows[0] if cut == 1 and form % 2 else list(rows), cols[0] if len(cols) == 1 and form % 2 else list(cols))
                elif op == 'vectorize':
                    r, w = a.vectorize(), A.ravel()
                elif op == 'mul' and n >= 1 and B.ndim >= 1:
                    ka = code % n
                    match = [k for k in range(B.ndim) if B.shape[k] == A.shape[ka]]
                    pairs = greedy(A.shape, B.shape, code)
                    if form == 5 and len(pairs) >= 2:
                        ia, ib = [q[0] for q in pairs], [q[1] for q in pairs]
                        w = np.tensordot(A, B, (ia, ib))
                        if w.size <= 2000:
                            r = a.mul(b, ia, ib) if code % 2 else a.mul(b, tuple(ia), tuple(ib))
                            lab.append('several axes contracted')
                    elif match and A.size * B.size // A.shape[ka] ** 2 <= 2000:
                        kb = match[form % len(match)]
                        w = np.tensordot(A, B, (ka, kb))
                        if ka == 0 and kb == 0 and form % 2:
                            r = a.mul(b)
                        else:
                            r = a.mul(b, ka, kb) if form % 3 else a.mul(b, [ka], [kb])
                elif op == 'kron' and n == 2 and B.ndim == 2 and A.size * B.size <= 2000:
                    r, w = a.kron(b if form % 2 else b.T), kron([A, B])
                elif op == 'khatri' and n == 2 and B.ndim == 2 and A.shape[1] == B.shape[1] and A.size * B.shape[0] <= 2000:
                    r, w = a.khatri(b if form % 2 else b.T), kr([A, B])
                elif op in ('add', 'sub', 'hmul'):
                    same = [k for k in range(len(pool)) if model[k].shape == A.shape and model[k].dtype == A.dtype]
                    k = same[j % len(same)]
                    other, O = pool[k], model[k]
                    if form == 1:
                        other = other.T
                    elif form == 2:
                        other = O = np.asarray(code % 7 - 3, A.dtype)
                    elif form >= 4 and n >= 1:  # a smaller operand, repeated along the modes it lacks
                        O = data([1 if code >> q & 1 else A.shape[q] for q in range(n)][(code % n if form == 5 else 0):], 'ints', case['seed'] + code, dt)
                        other = [O, tf.constant(O), DTensor(O)][j % 3]
                        lab.append('repeated operand')
                    r, w = {'add': lambda: (a + other, A + O), 'sub': lambda: (a - other, A - O),
                            'hmul': lambda: (a * other, A * O)}[op]()
                elif op == 'getitem' and n >= 1:
                    k = code % A.shape[0]
                    idx = [k, slice(0, k + 1), tuple(code % s for s in A.shape), (Ellipsis, code % A.shape[-1]),
                           [-1 - k, slice(None, None, -1), slice(k, None, 2), (None, k)][code // 7 % 4],
                           tuple([slice(code % s, None) if q % 2 else code % s - s for q, s in enumerate(A.shape)])][form]
                    plain.append((a[idx], A[idx], what))
                    applied += 1
                elif op == 'fold' and n >= 1:
                    m = code % n
                    r, w = DTensor.fold(tf.constant(unf(A, m)), m, A.shape), A
                elif op == 'shape':
                    ensure([int(v) for v in a.get_shape().as_list()] == list(A.shape), '%s: get_shape %s', what, a.get_shape())
                    ensure([int(v) for v in a.shape] == list(A.shape), '%s: shape %s', what, a.shape)
                    applied += 1
                elif op == 'eval':
                    evals.append((a, A, what))
                    applied += 1
            if r is not None:
                ensure(isinstance(r, DTensor), '%s: returned %r, not a DTensor', what, type(r))
                if np.size(w) and np.max(np.abs(w)) < 1e6:
                    pool.append(r)
                    model.append(w)
                else:  # keep float32 exact: compared, but not built upon
                    plain.append((r.T, w, what))
                applied += 1
                lab.append('op=' + op)
                trace.append('%s -> pool[%d]' % (what, len(pool) - 1))
            else:
                trace.append(what)
        with tf.Session() as s:
            with guard('evaluating the program %s' % trace):
                vals, pl = s.run([[p.T for p in pool], [p[0] for p in plain]], feed_dict=feed)
                ev = [p[0].eval(feed_dict=feed, session=s) for p in evals]
                if not feed:
                    ev2 = [p[0].eval(session=s) for p in evals]
                else:
                    ev2 = ev
                again = []
                if case['src'] == 'placeholder':  # the same objects under other data: nothing of the first run may stay
                    X2 = (X + 1) * 2
                    again = [(d.eval(feed_dict={ph: X2}, session=s), X2, 'eval of the wrapped placeholder with a second feed')]
                    for p, A, what in evals:
                        again.append((p.eval(feed_dict={ph: X2}, session=s), s.run(p.T, feed_dict={ph: X2}), what + ', second feed'))
                    for q in pool[3:][:3]:
                        first = q.eval(feed_dict=feed, session=s)
                        again.append((q.eval(feed_dict={ph: X2}, session=s), s.run(q.T, feed_dict={ph: X2}), 'eval of a result, second feed'))
                        again.append((q.eval(feed_dict=feed, session=s), first, 'eval of a result, first feed again'))
                    lab.append('second feed')
    tol = 1e-5 if dt == 'float32' else 1e-12
    for k, (v, w) in enumerate(zip(vals, model)):
        near(v, w, 'pool[%d] after %s' % (k, trace), tol)
    for v, (_, w, what) in zip(pl, plain):
        near(v, w, what, tol)
    for v, v2, (_, w, what) in zip(ev, ev2, evals):
        near(v, w, what, tol)
        near(v2, w, what, tol)
    for v, w, what in again:
        near(v, w, what, tol)
    for k, p in enumerate(pool):
        ensure([int(x) for x in p.shape] == list(model[k].shape), 'pool[%d].shape is %s, expected %s', k, p.shape, model[k].shape)
    ensure(np.array_equal(X, X0), 'the wrapped array was changed')
    lab.append('applied=%d' % applied)
    if applied >= 4:
        lab.append('four or more applied')
    return lab


def nontrivial(case, labels):
    return 'four or more applied' in labels
