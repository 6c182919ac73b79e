"""Strategy building blocks.  Cases are JSON values; arrays are derived from (shape, fill, seed)."""


def seeds(st):
    return st.integers(0, 2 ** 31 - 1)


def pick(st, lo, hi):
    """an integer of [lo, hi], evenly (st.integers leans heavily to the ends of a small range)"""
    return st.sampled_from(list(range(lo, hi + 1)))


def mix(st, *weighted):
    """one of the (weight, strategy) pairs; st.one_of takes all branches as equally likely"""
    flat = [s for w, s in weighted for _ in range(w)]
    return st.sampled_from(list(range(len(flat)))).flatmap(lambda i: flat[i])


def orders(st, lo, hi):
    w = {1: 1, 2: 3, 3: 4, 4: 3, 5: 2, 6: 2, 7: 1, 8: 1}
    first = min(max(3, lo), hi)
    return st.sampled_from([first] + [n for n in range(lo, hi + 1) for _ in range(w.get(n, 1))])


def dims(st, maxdim):
    return st.sampled_from([2, 3] + [d for d in range(1, maxdim + 1)] + [d for d in range(2, maxdim + 1)])


def shapes(st, lo=1, hi=6, maxdim=6, maxsize=4000):
    """tensor shapes: mixed, with singleton modes, skewed, square, many-mode"""
    def cap(s):
        n = 1
        out = []
        for d in s:
            d = max(1, min(d, maxsize // max(n, 1)))
            n *= d
            out.append(d)
        return out

    def of(n):
        dim = dims(st, maxdim)
        mixed = st.lists(dim, min_size=n, max_size=n)
        square = dim.map(lambda d: [d] * n)
        long = st.builds(lambda s, i, d: s[:i] + [d] + s[i + 1:], st.lists(pick(st, 1, 3), min_size=n, max_size=n),
                         pick(st, 0, n - 1), st.integers(8, 70))
        return st.one_of(mixed, mixed, mixed, square, long)
    return orders(st, lo, hi).flatmap(of).map(cap)


def large(st):
    """shapes beyond the usual ones: larger cubes, long modes, large matrices, many modes"""
    return mix(st, (3, st.lists(pick(st, 8, 20), min_size=3, max_size=3)),
               (2, st.builds(lambda s, i, d: s[:i] + [d] + s[i:], st.lists(pick(st, 2, 4), min_size=2, max_size=2), pick(st, 0, 2), pick(st, 100, 300))),
               (1, st.lists(pick(st, 20, 60), min_size=2, max_size=2)),
               (2, pick(st, 6, 7).flatmap(lambda n: st.lists(pick(st, 1, 3), min_size=n, max_size=n))))


def wide(st, lo=1, hi=10, share=16):
    """shapes for single operator calls: one case in `share` beyond the usual sizes or numbers of modes"""
    big = mix(st, (3, st.lists(pick(st, 8, 22), min_size=3, max_size=3)),
              (2, st.builds(lambda s, i, d: s[:i] + [d] + s[i:], st.lists(pick(st, 1, 4), max_size=2), pick(st, 0, 2), pick(st, 80, 1100))),
              (2, st.lists(pick(st, 15, 70), min_size=2, max_size=2)),
              (2, pick(st, 7, 10).flatmap(lambda n: st.lists(pick(st, 1, 3), min_size=n, max_size=n))))
    return lambda usual: mix(st, (share - 1, usual), (1, big.filter(lambda s: lo <= len(s) <= hi)))


def size(st, lo, hi, far, share=12):
    """a size of [lo, hi], one in `share` from there up to far"""
    return mix(st, (share - 1, pick(st, lo, hi)), (1, pick(st, hi + 1, far)))


def sized(st, elem, lo, hi):
    return pick(st, lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


def subset(st, n, lo=0, hi=None):
    """a list of distinct indices below n, in any order"""
    hi = n if hi is None else hi
    return st.tuples(st.permutations(list(range(n))), pick(st, lo, hi)).map(lambda t: list(t[0][:t[1]]))


def perms(st, n):
    return st.permutations(list(range(n)))
