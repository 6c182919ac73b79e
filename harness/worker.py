"""One shard of a property check: drives the strategy, shrinks, reports as JSON."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

import numpy  # before hypothesis' site-packages is appended: that tree has a numpy of its own

from harness import sut  # imports TensorFlow (through the tf1 plugin) and the code under test
from harness.core import Violation

VENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def import_hypothesis():
    try:
        import hypothesis
    except ImportError:
        sys.path.append(VENV)
        try:
            import hypothesis
        except ImportError:
            import glob
            import zipfile
            sys.path.remove(VENV)
            d = os.path.join(os.environ['TENSORD_SCRATCH'], 'deps')
            for pat in ('hypothesis-*', 'sortedcontainers-*'):
                for w in sorted(glob.glob('/opt/veriftools/wheels/' + pat))[:1]:
                    zipfile.ZipFile(w).extractall(d)
            sys.path.append(d)
            import hypothesis
    # Hypothesis copies parts of a case over others of the same kind, which turns half of all models into the first of
    # the list; independent draws reach more.  Failing that, the search is the same with fewer different cases.
    from hypothesis.internal.conjecture import engine
    if hasattr(engine.ConjectureRunner, 'generate_mutations_from'):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    return hypothesis


class Stop(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    a = ap.parse_args()
    hyp = import_hypothesis()
    mod = importlib.import_module('harness.props.' + a.prop.lower())
    res = dict(evaluations=0, labels={}, keys=[], nontrivial=[], samples=[], rule=mod.RULE,
               assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), failure=None, error=None, budget_stop=False,
               known={})

    def one(case):
        """-> labels of the case; raises Violation"""
        sut.begin_case()
        try:
            return mod.check(case)
        except Violation:
            raise
        except Exception as e:  # an exception with a frame of the code under test is the code's
            if sut.through_repo(e):
                raise Violation('the code under test raised %s: %s\n%s' % (
                    type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-6:]))) from None
            raise
        finally:
            sut.end_case()

    def finish():
        tmp = a.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, a.out)
        sys.stdout.flush()
        os._exit(0)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        case = rep.get('case', rep)
        try:
            one(case)
        except Violation as v:
            res['failure'] = dict(case=case, message=str(v))
        except Exception:
            res['error'] = traceback.format_exc()
        finish()

    import hypothesis.strategies as st
    cfg = mod.CASES[a.tier]
    total = a.cases if a.cases is not None else cfg
    n = (total + a.shards - 1) // a.shards
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 150 if a.tier == 'quick' else 1800)
    shrink_budget = float(os.environ.get('TENSORD_SHRINK', 25))
    t_start = time.time()
    state = dict(first_fail=None, best=None)
    keys, nontriv = set(), set()
    current = os.path.join(os.path.dirname(a.out), 'current.json')

    def body(case):
        case = json.loads(json.dumps(case))
        now = time.time()
        if state['first_fail'] is not None and now - state['first_fail'] > shrink_budget:
            raise Stop()
        if state['first_fail'] is None and now - t_start > budget:
            res['budget_stop'] = True
            raise Stop()
        with open(current, 'w') as f:
            json.dump(case, f)
        try:
            labels = one(case)
        except Violation as v:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            size = len(json.dumps(case))
            if state['best'] is None or size < state['best'][0]:
                state['best'] = (size, case, str(v))
            raise
        if state['first_fail'] is not None:
            return
        res['evaluations'] += 1
        key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        labels = labels or []
        for l in set(labels):
            if l.startswith('known:'):
                res['known'][l[6:]] = res['known'].get(l[6:], 0) + 1
            res['labels'][l] = res['labels'].get(l, 0) + 1
        keys.add(key)
        if mod.nontrivial(case, labels):
            nontriv.add(key)
            if len(res['samples']) < 3:
                res['samples'].append(case)

    strategy = mod.strategy(st, a.tier)
    test = hyp.given(strategy)(body)
    test = hyp.settings(max_examples=max(n, 1), deadline=None, database=None, derandomize=False,
                        suppress_health_check=list(hyp.HealthCheck), print_blob=False, report_multiple_bugs=False,
                        verbosity=hyp.Verbosity.quiet)(test)
    test = hyp.seed(a.seed * 1000003 + a.shard * 7919 + 17)(test)
    try:
        with sut.quiet():
            test()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if state['best'] is None:
            if isinstance(e, KeyboardInterrupt):
                raise
            res['error'] = traceback.format_exc()
    if state['best'] is not None:
        res['failure'] = dict(case=state['best'][1], message=state['best'][2])
    res['keys'] = sorted(keys)
    res['nontrivial'] = sorted(nontriv)
    finish()


if __name__ == '__main__':
    main()
