"""C16: NCP_BCU stays non-negative and follows its block coordinate update"""
from harness.props import bcu

RULE = ('NCP_BCU of a non-negative 2- to 5-mode tensor (dense, sparse, counts, 0/1, large and small scale, a few entries only) for 1-60 steps, the iterate observed after '
        'every step; all entries non-negative, and each step compared block by block with a projected gradient step of size 1/L from the '
        'extrapolated previous iterate (or from the last accepted one after a step that did not improve). Non-trivial: at least two modes of '
        'size >= 2 and a compared sweep.')
ASSUMPTIONS = ['data without negative entries', 'the extrapolation weight of step 3 depends on the unobservable initial factors and is left free']
CASES = {'quick': 800, 'thorough': 5000}


def strategy(st, tier):
    return bcu.strategy(st, 'ncp')


def check(case):
    return bcu.check_run(case, bcu.step_ncp)


def nontrivial(case, labels):
    return sum(d >= 2 for d in case['shape']) >= 2 and any(l.startswith('compared') for l in labels)
