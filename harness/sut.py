"""The code under test and the TensorFlow runtime it needs."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import traceback

import numpy as np
import tf1_mode  # noqa: F401  (makes "import tensorflow" the TF1 API)
import tensorflow as tf

tf.get_logger().setLevel('ERROR')
REPO = os.environ.get('TENSORD_REPO', '/repo')

import tensorD.base.ops as ops  # noqa: E402
from tensorD.base.type import DTensor, KTensor, TTensor  # noqa: E402
from tensorD.base.error import TensorErr  # noqa: E402
from tensorD.base import pitf_ops, pitf_ops_numpy  # noqa: E402
import tensorD.loss as loss  # noqa: E402
from tensorD.dataproc.provider import Provider  # noqa: E402
from tensorD.dataproc.reader import TensorReader  # noqa: E402
from tensorD.demo import DataGenerator  # noqa: E402
from tensorD.factorization.env import Environment  # noqa: E402
from tensorD.factorization.cp import CP_ALS  # noqa: E402
from tensorD.factorization.ncp import NCP_BCU  # noqa: E402
from tensorD.factorization.ntucker import NTUCKER_BCU  # noqa: E402
from tensorD.factorization.tucker import HOSVD, HOOI  # noqa: E402
from tensorD.factorization.pitf import PITF  # noqa: E402
from tensorD.factorization.pitf_numpy import PITF_np  # noqa: E402

from .core import Violation  # noqa: E402

assert os.path.realpath(ops.__file__).startswith(os.path.realpath(REPO) + os.sep), ops.__file__

_SCRATCH = os.environ.get('TENSORD_SCRATCH') or tempfile.mkdtemp()
_case = {'dir': None}


def begin_case():
    np.random.seed(12345)  # a stray draw of global randomness stays reproducible
    _case['dir'] = None
    os.chdir(_SCRATCH)
    tf.reset_default_graph()


def end_case():
    os.chdir(_SCRATCH)
    if _case['dir']:
        shutil.rmtree(_case['dir'], ignore_errors=True)
        _case['dir'] = None


def case_dir():
    """a scratch directory of this case, removed when the case ends"""
    if not _case['dir']:
        _case['dir'] = tempfile.mkdtemp(prefix='case-', dir=_SCRATCH)
    return _case['dir']


@contextlib.contextmanager
def quiet():
    """the code under test prints every step"""
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
        yield


def through_repo(e):
    root = os.path.realpath(REPO) + os.sep
    tb = e.__traceback__
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


class guard(object):
    """what happens inside is the code under test on valid input: an exception is a violation"""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, Violation):
            return False
        raise Violation('%s raised %s: %s\n%s' % (self.what, et.__name__, str(e)[:600],
                                                  ''.join(traceback.format_tb(tb)[-4:]))) from None


def run(what, build, feed=None):
    """build() makes tensors (or a structure of them) in a fresh graph; returns their values"""
    with guard(what):
        with tf.Graph().as_default():
            out = build()
            with tf.Session() as s:
                return s.run(out, feed_dict=feed)


def raises(exc, f, what):
    """f() must raise exc, and nothing else"""
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: raised %s (%s), expected %s' % (what, type(e).__name__, str(e)[:200], exc.__name__)) from None
    raise Violation('%s: returned %r, expected %s' % (what, r, exc.__name__))
