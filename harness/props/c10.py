"""C10: TensorReader returns exactly the entries of the file"""
import os
from ctypes import ArgumentError

import numpy as np

from harness import gen
from harness.core import ensure, exact
from harness.sut import TensorReader, tf, guard, case_dir, raises

RULE = ('a csv or txt file of 1-40 (at times up to 3000) distinct entries of a tensor of order 1-6 in random order, values as integers, decimals, scientific '
        'notation, negative or zero, with blank lines, padding, CRLF or missing final newline; read with the shape inferred or given (list / tuple, '
        'larger than the entries), then read again after the file is replaced (also by one of the same length and time stamp, with the shape given once and inferred once); at times a position beyond 2**31. Non-trivial: at least two entries, '
        'order >= 2, and not in index order.')
CASES = {'quick': 3600, 'thorough': 40000}


def strategy(st, tier):
    def f(n):
        val = st.one_of(st.integers(-1000, 1000).map(str), st.floats(-1e6, 1e6, allow_nan=False).map(repr),
                        st.floats(1e-12, 1e12).map(lambda v: '%.17e' % v), st.floats(-10, 10).map(lambda v: '%.3f' % v),
                        st.sampled_from(['0', '-0.0', '1e3', '.5', '5.', '+2', '007', '1e-300']))
        entry = st.tuples(st.lists(st.one_of(gen.pick(st, 0, 5), gen.pick(st, 0, 30)), min_size=n, max_size=n), val)
        entries = gen.sized(st, entry, 1, 25).map(lambda l: list({tuple(e[0]): [e[0], e[1]] for e in l}.values()))
        return st.fixed_dictionaries(dict(
            entries=entries, second=entries, ext=st.sampled_from(['csv', 'txt']),
            name=st.sampled_from(['data', 'a.b', 'with space', 'x.txt.v2', 'x.csv.old']), subdir=st.sampled_from(['', 'dir.d', 'd']),
            blank=st.lists(gen.pick(st, 0, 25), max_size=3), pad=st.booleans(), eol=st.sampled_from(['\n', '\n', '\r\n']),
            final=st.booleans(), shape=st.sampled_from(['none', 'list', 'tuple', 'none']), extra=st.lists(gen.pick(st, 0, 4), min_size=n, max_size=n),
            bad=st.sampled_from(['json', 'CSV', 'dat', 'csv.gz', 'tsv']), other_reader=st.booleans(), bulk=st.sampled_from([0] * 12 + [100, 600, 3000]),
            far=st.sampled_from([0] * 9 + [9000, 70000, 3 * 10 ** 9]), stamp=st.booleans(), shape2=st.sampled_from(['same', 'none', 'same', 'list']),
            digits=gen.pick(st, 0, 3), seed=gen.seeds(st)))
    return st.sampled_from([2, 3, 1, 4, 5, 6, 3]).flatmap(f)


def more(entries, bulk, seed):
    """bulk further distinct entries, in random order among the given ones"""
    rng = np.random.RandomState(seed)
    n = len(entries[0][0])
    d = {tuple(e[0]): e for e in entries}
    for k in rng.randint(0, max(4, int(2 * (bulk + 1) ** (1.0 / n))), size=(bulk, n)).tolist():
        d.setdefault(tuple(k), [k, repr(round(float(rng.standard_normal()), 6))])
    out = list(d.values())
    if bulk:
        out = [out[i] for i in rng.permutation(len(out))]
    return out


def write(path, case, entries):
    lines = [(', ' if case['pad'] else ',').join([str(i) for i in e[0]] + [e[1]]) for e in entries]
    for b in case['blank']:
        lines.insert(b % (len(lines) + 1), '')
    with open(path, 'w', newline='') as f:
        f.write(case['eol'].join(lines) + (case['eol'] if case['final'] else ''))


def compare(reader, entries, shape, what):
    idx = np.array([e[0] for e in entries])
    val = [float(e[1]) for e in entries]
    dims = [int(v) for v in (idx.max(axis=0) + 1)] if shape is None else list(shape)
    if np.prod(dims, dtype=float) > 3e5:
        dense = None
    else:
        dense = np.zeros(dims)
        for i, v in zip(idx, val):
            dense[tuple(i)] = v
    with guard(what), tf.Session() as s:
        ts, td = reader.sparse_data, reader.full_data
        sp, de = s.run([ts, td]) if dense is not None else (s.run(ts), None)
    ensure(list(sp.dense_shape) == dims, '%s: sparse shape %s, expected %s', what, list(sp.dense_shape), dims)
    got = {}
    for i, v in zip(np.asarray(sp.indices), np.asarray(sp.values)):
        k = tuple(int(x) for x in i)
        ensure(k not in got, '%s: entry %s appears twice', what, k)
        got[k] = float(v)
    want = {tuple(int(x) for x in i): v for i, v in zip(idx, val)}
    ensure(got == want, '%s: sparse entries %s, expected %s', what, got, want)
    if dense is not None:
        exact(de, dense, what + ': dense data')
        ensure(td.get_shape().as_list() == dims, '%s: static shape %s, expected %s', what, td.get_shape(), dims)


def check(case):
    d = os.path.join(case_dir(), case['subdir'])
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, case['name'] + '.' + case['ext'])
    case = dict(case, entries=more(case['entries'], case['bulk'], case['seed']))
    if case['far']:  # one position far out
        e = case['entries'][0]
        case['entries'] = [[list(e[0])[:-1] + [e[0][-1] + case['far']], e[1]]] + case['entries'][1:]
    if case['digits'] == 0:  # the same positions and the same length, other values
        case['second'] = [[e[0], e[1].translate(str.maketrans('123456789', '234567891'))] for e in case['entries']]
    write(path, case, case['entries'])
    shape = None
    if case['shape'] != 'none':
        shape = [int(max(e[0][m] for e in case['entries'] + case['second']) + 1 + case['extra'][m]) for m in range(len(case['extra']))]
    arg = tuple(shape) if case['shape'] == 'tuple' else shape
    with tf.Graph().as_default():
        with guard('TensorReader(%r).read(%r)' % (os.path.basename(path), arg)):
            r = TensorReader(path)
            ensure(r.full_data is None and r.sparse_data is None, 'data before read()')
            if arg is None and case['final']:
                r.read()
            else:
                r.read(arg)
        compare(r, case['entries'], shape, 'first read')
        first = shape
        keep = os.stat(path)
        write(path, case, case['second'])
        if case['stamp']:
            os.utime(path, ns=(keep.st_atime_ns, keep.st_mtime_ns))
        if case['shape2'] == 'none':
            arg = shape = None
        elif case['shape2'] == 'list' and shape is None:
            arg = shape = [int(max(e[0][m] for e in case['second']) + 1 + case['extra'][m]) for m in range(len(case['extra']))]
        with guard('second read(%r)' % (arg,)):
            r2 = TensorReader(path) if case['other_reader'] else r
            r2.read(full_shape=arg)
        compare(r2, case['second'], shape, 'second read')
        if case['other_reader']:
            compare(r, case['entries'], first, 'first reader after a second one read another content')
        bad = os.path.join(d, 'x.' + case['bad'])
        write(bad, case, case['entries'])
        raises(ArgumentError, lambda: TensorReader(bad).read(), 'reading a .%s file' % case['bad'])
    n = len(case['extra'])
    lab = ['order=%d' % n, 'shape ' + case['shape'], case['ext']]
    if case['bulk']:
        lab.append('long file')
    e = [x[0] for x in case['entries']]
    if e != sorted(e):
        lab.append('entries not in index order')
    if case['blank']:
        lab.append('blank lines')
    return lab


def nontrivial(case, labels):
    return len(case['extra']) >= 2 and 'entries not in index order' in labels
