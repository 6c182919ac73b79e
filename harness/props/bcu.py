"""Reference model of the block coordinate update methods (prox-linear steps with extrapolation and restart)."""
import numpy as np

from harness import gen, models
from harness.core import ensure, fro, kr, ttm, unf

EPS = 2.5e-5


class Start(object):
    """what the next step starts from: the extrapolated blocks, the last accepted ones, t, the best objective"""

    def __init__(self, Am, A0, t0, obj0):
        self.Am, self.A0, self.t0, self.obj0 = Am, A0, t0, obj0


def block(name, at, G0, X0, L, got, w, errs):
    """one prox-linear update relu(at - (G0 - X0) / L) against what was computed; None when it matches"""
    want = np.maximum(0, at - (G0 - X0) / L)
    scale = np.max(np.abs(at)) + (np.max(np.abs(G0)) + np.max(np.abs(X0))) / L
    d = np.max(np.abs(want - got))
    if not d <= EPS * scale:
        i = tuple(int(v) for v in np.argwhere(np.abs(want - got) == d)[0]) if np.isfinite(d) else 0
        errs.append('%s: %s differs at %s from a projected gradient step with step size 1/L: got %r, expected %r (L = %.6g)' % (
            w, name, i, got[i].item() if i else got, want[i].item() if i else want, L))
        return False
    return True


def step_ncp(X, prev, new, s, w, errs):
    """checks the sweep prev -> new started from s; -> Lipschitz constants or None"""
    N = X.ndim
    Ls = []
    for m in range(N):
        oth = [new[i] if i < m else prev[i] for i in range(N) if i != m][::-1]
        V = np.ones((new[0].shape[1],) * 2)
        for o in oth:
            V = V * (o.T @ o)
        L = np.linalg.norm(V, 2)
        Ls.append(L)
        if not L > 0:
            return None
        if not block('factor %d' % m, s.Am[m], s.Am[m] @ V, unf(X, m) @ kr(oth), L, new[m], w, errs):
            return None
    return Ls


def step_ntucker(X, prev, new, s, w, errs):
    """the last block is the core, which is updated first"""
    N = X.ndim
    gram = [a.T @ a for a in prev[:N]]
    Lg = float(np.prod([np.linalg.norm(a, 2) for a in gram]))
    if not Lg > 0 or not block('core', s.Am[N], ttm(s.Am[N], gram), ttm(X, prev[:N], tr=True), Lg, new[N], w, errs):
        return None
    Ls = []
    for m in range(N):
        cur = [new[i] if i < m else prev[i] for i in range(N)]
        B = unf(ttm(new[N], cur, skip=m), m)
        BB = B @ B.T
        L = np.linalg.norm(BB, 2)
        Ls.append(L)
        if not L > 0:
            return None
        if not block('factor %d' % m, s.Am[m], s.Am[m] @ BB, unf(X, m) @ B.T, L, new[m], w, errs):
            return None
    return Ls + [Lg]


def strategy(st, kind):
    plain = models.model_case(st, [kind], maxsize=300, maxrank=4, hi=5, maxdim=6, large=12).flatmap(lambda c: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in c.items()}, steps=st.sampled_from([6, 1, 2, 4, 8, 12, 20, 40, 60, 110]), prefixes=st.sampled_from([False, False, False, True]))))
    # data on which the step sizes change enough to limit the extrapolation
    late = gen.sized(st, gen.pick(st, 3, 6), 3, 4).flatmap(lambda sh: st.fixed_dictionaries(dict(
        kind=st.just(kind), shape=st.just(sh), ranks=st.lists(gen.pick(st, 2, 4), min_size=len(sh), max_size=len(sh)), fill=st.just(0), data=st.sampled_from(['spikes', 'offblock']),
        dtype=st.just('float64'), dseed=gen.seeds(st), gseed=st.integers(0, 10 ** 6), style=st.just(0), steps=st.sampled_from([30, 50]), prefixes=st.just(False))))
    return gen.mix(st, (2, plain), (1, late))


def check_run(case, sweep):
    kind, X, ranks, fill = models.setup(case)
    K = case['steps']
    what = models.describe(kind, X, ranks, K)
    rs = models.fit_steps(kind, X, ranks, K, case['gseed'], tol=0.0, prefixes=case['prefixes'] and K <= 8)
    ensure(rs is not None, '%s: two trainings of one model take different paths', what)
    X = X.astype('float64')
    norm = fro(X)
    lab = ['order=%d' % X.ndim, 'fill=' + fill]
    blocks = []
    for k, r in enumerate(rs, 1):
        w = '%s, step %d' % (what, k)
        models.check_coherent(r, X, ranks, w)
        ensure(len(r.hist) == k, '%s: %d history entries', w, len(r.hist))
        for i, f in enumerate(r.factors):
            ensure(np.min(f) >= 0, '%s: factor %d has the negative entry %r', w, i, float(np.min(f)))
        if kind == 'ncp':
            ensure(np.all(r.lambdas == 1), '%s: weights %s', w, r.lambdas)
        else:
            ensure(np.min(r.core) >= 0, '%s: the core has the negative entry %r', w, float(np.min(r.core)))
        ensure(np.min(r.full) >= 0, '%s: full has the negative entry %r', w, float(np.min(r.full)))
        blocks.append([f.astype('float64') for f in r.factors] + ([r.core.astype('float64')] if r.core is not None else []))
    objs = [0.5 * (r.hist[-1][1] * norm) ** 2 for r in rs]
    # after step 1 the extrapolation weight is 0 and any objective is an improvement
    t = (1 + 5 ** 0.5) / 2
    starts = [Start(blocks[0], blocks[0], t, objs[0])]
    L0 = None
    compared = rejected = limited = 0
    for k in range(1, len(rs)):
        new, prev, obj = blocks[k], blocks[k - 1], objs[k]
        w = '%s, step %d' % (what, k + 1)
        errs, nxt = [], []
        for s in starts:
            if s.Am is None:  # unknown extrapolation weight: nothing to compare
                Ls = lips(kind, X, prev, new)
            else:
                Ls = sweep(X, prev, new, s, w, errs)
                if Ls is not None:
                    compared += 1
            if Ls is None:
                continue
            t = (1 + np.sqrt(1 + 4 * s.t0 ** 2)) / 2
            wt = (s.t0 - 1) / t
            e = 4e-6 * (obj + s.obj0) + 1e-9 * norm ** 2
            if obj < s.obj0 + e:
                if L0 is None:
                    Am = None
                else:
                    if any(l0 < 0.98 * wt ** 2 * l and np.max(np.abs(a - a0)) > 1e-3 * np.max(a) for a, a0, l0, l in zip(new, s.A0, L0, Ls)):
                        limited += 1
                    Am = [a + min(wt, np.sqrt(l0 / l)) * (a - a0) for a, a0, l0, l in zip(new, s.A0, L0, Ls)]
                nxt.append(Start(Am, new, t, obj))
            if obj > s.obj0 - e:
                nxt.append(Start(s.A0, s.A0, s.t0, s.obj0))
                if obj > s.obj0 + e:
                    rejected += 1
        if not nxt:
            ensure(not errs, '%s', errs[0] if errs else '')
            lab.append('a block vanished')
            break
        starts = nxt
        L0 = lips(kind, X, prev, new)
        if len(starts) > 4:
            lab.append('too many ties')
            break
    if compared:
        lab.append('compared sweeps: %s' % ('1-3' if compared < 4 else '4-9' if compared < 10 else '10+'))
    if limited:
        lab.append('extrapolation limited by the step sizes')
    if rejected:
        lab.append('with a rejected step')
    return lab


def lips(kind, X, prev, new):
    N = X.ndim
    Ls = []
    for m in range(N):
        cur = [new[i] if i < m else prev[i] for i in range(N)]
        if kind == 'ncp':
            V = np.ones((new[0].shape[1],) * 2)
            for i, o in enumerate(cur):
                if i != m:
                    V = V * (o.T @ o)
        else:
            B = unf(ttm(new[N], cur, skip=m), m)
            V = B @ B.T
        L = np.linalg.norm(V, 2)
        if not L > 0:
            return None
        Ls.append(L)
    if kind == 'ntucker':
        Ls.append(float(np.prod([np.linalg.norm(a.T @ a, 2) for a in prev[:N]])))
    return Ls
