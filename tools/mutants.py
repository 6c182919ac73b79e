#!/usr/bin/env python3
"""Mutation campaign (a tool for judging the checks, no check itself).

  mutants.py list  OUT.jsonl                  list the mutants of /repo's sources
  mutants.py run   OUT.jsonl RES.jsonl [N]    run one shard of the mapped checks on each, N at a time
  mutants.py serve                            (internal)

Every mutant is one small edit of one file in a scratch copy of the sources under /tmp; nothing is changed in /repo.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
IT = ['C11', 'C12', 'C18', 'C20', 'C19', 'C26', 'C27', 'C28', 'C29']
MAP = {
    'base/ops.py': {'unfold': ['C01'], '_gen_perm': ['C01'], 'fold': ['C01'], 't2mat': ['C02'], 'vectorize': ['C02'], 'vec_to_tensor': ['C02'],
                    'mul': ['C05'], 'inner': ['C05'], 'ttm': ['C04'], '_skip': ['C03', 'C06'], 'hadamard': ['C03'], 'kron': ['C03'], 'khatri': ['C03'],
                    'xcb': ['C25'], 'max_single_value_mul': ['C25'], '': ['C01', 'C02', 'C03', 'C04', 'C05', 'C25', 'C06', 'C15']},
    'base/type.py': {'': ['C08', 'C07', 'C06']},
    'base/error.py': {'': ['C09']},
    'loss.py': {'': ['C09', 'C06']},
    'base/pitf_ops.py': {'': ['C21', 'C22', 'C23']},
    'base/pitf_ops_numpy.py': {'': ['C21', 'C22', 'C23', 'C06']},
    'dataproc/reader.py': {'': ['C10']},
    'demo/DataGenerator.py': {'': ['C24']},
    'factorization/env.py': {'': ['C11', 'C19', 'C20']},
    'factorization/cp.py': {'': ['C15'] + IT},
    'factorization/ncp.py': {'': ['C16'] + IT},
    'factorization/ntucker.py': {'': ['C17'] + IT},
    'factorization/tucker.py': {'': ['C13', 'C14'] + IT},
    'factorization/pitf.py': {'': ['C23']},
    'factorization/pitf_numpy.py': {'': ['C23']},
}
SWAP = {'maximum': 'minimum', 'minimum': 'maximum', 'reduce_max': 'reduce_min', 'reduce_min': 'reduce_max', 'zeros': 'ones', 'ones': 'zeros',
        'reduce_sum': 'reduce_mean', 'reduce_mean': 'reduce_sum', 'square': 'abs', 'sqrt': 'abs', 'relu': 'abs', 'abs': 'negative', 'add': 'subtract',
        'subtract': 'add', 'float32': 'float64', 'float64': 'float32', 'append': 'extend', 'argmax': 'argmin', 'max': 'min', 'min': 'max', 'sign': 'abs'}


def mutants_of(src):
    """-> (function, line, start, end, replacement) with character offsets"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    bytelines = [l.encode() for l in lines]

    def pos(line, col):
        return off[line - 1] + len(bytelines[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def emit(fn, n, new):
        a, b = span(n)
        if src[a:b] != new:
            out.append((fn, n.lineno, a, b, new))
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '//', ast.Pow: '*', ast.FloorDiv: '/'}
    CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
           ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}

    def walk(n, fn, doc=()):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name if isinstance(n, ast.FunctionDef) else fn
        body = getattr(n, 'body', None)
        if isinstance(n, ast.BinOp):
            for t, s in BIN.items():
                if isinstance(n.op, t):
                    emit(fn, n, '(%s %s %s)' % (text(n.left), s, text(n.right)))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for s in CMP.get(type(n.ops[0]), []):
                emit(fn, n, '(%s %s %s)' % (text(n.left), s, text(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            s = ' or ' if isinstance(n.op, ast.And) else ' and '
            emit(fn, n, '(' + s.join('(%s)' % text(v) for v in n.values) + ')')
            for i in range(len(n.values)):
                emit(fn, n, '(' + (' and ' if s == ' or ' else ' or ').join('(%s)' % text(v) for j, v in enumerate(n.values) if j != i) + ')')
        elif isinstance(n, ast.UnaryOp):
            emit(fn, n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                emit(fn, n, str(not n.value))
            elif isinstance(n.value, int):
                emit(fn, n, str(n.value + 1))
                emit(fn, n, '(%d)' % (n.value - 1))
            elif isinstance(n.value, float):
                emit(fn, n, repr(n.value * 2))
                emit(fn, n, repr(n.value * 1.01))
            elif n.value is None:
                emit(fn, n, '0')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    a, b = span(x)[0], span(y)[1]
                    mid = src[span(x)[1]:span(y)[0]]
                    out.append((fn, n.lineno, a, b, text(y) + mid + text(x)))
            for k in n.keywords:
                if k.arg in ('name', 'dtype') or k.arg is None:
                    continue
                a, b = span(k)
                while src[a - 1] in ' \n\r':
                    a -= 1
                if src[a - 1] == ',':
                    a -= 1
                elif src[b:b + 1] == ',':
                    b += 1
                out.append((fn, n.lineno, a, b, ''))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            emit(fn, n, text(n.value) + '.' + SWAP[n.attr])
        elif isinstance(n, ast.Name) and n.id in ('max', 'min', 'abs', 'reversed', 'sorted'):
            emit(fn, n, {'max': 'min', 'min': 'max', 'abs': 'float', 'reversed': 'list', 'sorted': 'list'}[n.id])
        elif isinstance(n, ast.If):
            emit(fn, n.test, 'not (%s)' % text(n.test))
        elif isinstance(n, ast.IfExp):
            emit(fn, n, '(%s)' % text(n.body))
            emit(fn, n, '(%s)' % text(n.orelse))
        elif isinstance(n, ast.With) and 'control_dependencies' in text(n.items[0].context_expr):
            emit(fn, n.items[0].context_expr, 'tf.control_dependencies([])')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            emit(fn, n, text(n.value))
        elif isinstance(n, ast.Break):
            emit(fn, n, 'continue')
        elif isinstance(n, ast.Starred):
            pass
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn or (isinstance(n, ast.Expr) and fn and not isinstance(n.value, ast.Constant)):
            if not text(n).startswith('print'):
                emit(fn, n, 'pass')
        if isinstance(n, ast.List) and len(n.elts) >= 2 and not isinstance(getattr(n, 'ctx', None), ast.Store):
            for i in range(len(n.elts) - 1):
                x, y = n.elts[i], n.elts[i + 1]
                out.append((fn, n.lineno, span(x)[0], span(y)[1], text(y) + src[span(x)[1]:span(y)[0]] + text(x)))
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and text(c).startswith('print'):
                continue
            if isinstance(n, ast.Call) and isinstance(c, ast.keyword) and c.arg == 'name':
                continue
            if isinstance(n, (ast.FunctionDef,)) and c in n.decorator_list:
                continue
            walk(c, fn)
    walk(tree, '')
    seen, res = set(), []
    for m in out:
        if m[2:] not in seen:
            seen.add(m[2:])
            res.append(m)
    return res


def cmd_list(path):
    k = 0
    with open(path, 'w') as f:
        for rel, m in MAP.items():
            src = open(os.path.join(REPO, 'tensorD', rel), newline='').read()
            crlf = '\r\n' in src
            src = src.replace('\r\n', '\n')
            for fn, line, a, b, new in mutants_of(src):
                mut = src[:a] + new + src[b:]
                try:
                    ast.parse(mut)
                except SyntaxError:
                    continue
                f.write(json.dumps(dict(id=k, file=rel, fn=fn, line=line, old=src[a:b], new=new, a=a, b=b, crlf=crlf, props=m.get(fn, m['']))) + '\n')
                k += 1
    print(k)


def check_copy(copy, props, shard, scratch, out):
    """in a forked child: few cases of every property first, then its full shard; the first violation is written to out"""
    sys.path[:0] = [copy, V]
    os.environ.update(TENSORD_REPO=copy, TENSORD_SCRATCH=scratch, TMPDIR=scratch, TENSORD_SHRINK='0')
    real_exit = os._exit

    class Done(BaseException):
        pass

    def ex(code):
        raise Done()

    def say(**k):
        with open(out, 'w') as f:
            json.dump(k, f)
        real_exit(0)
    try:
        from harness import worker
    except BaseException as e:
        say(prop='import', msg=repr(e)[:200])
    for cases in (['--cases', '64'], ['--shards', os.environ.get('SHARDS', '8')]):
        for p in props:
            o = os.path.join(scratch, 'r.json')
            sys.argv = ['worker', p, '--tier', 'quick', '--seed', '1', '--shard', str(shard), '--shards', '8', '--out', o] + cases
            os._exit = ex
            try:
                worker.main()
            except Done:
                pass
            except BaseException as e:
                say(prop=p, crash=repr(e)[:200])
            r = json.load(open(o))
            if r['failure'] or r['error']:
                say(prop=p, error=bool(r['error']), msg=((r['failure'] or {}).get('message') or r['error'])[:300], few=bool(cases))
    say(prop=None)


def cmd_serve():
    """preloads TensorFlow and Hypothesis, then forks one child per mutant named on stdin"""
    sys.path[:0] = ['/opt/vp/plugin']
    import numpy  # noqa
    import tf1_mode  # noqa
    import tensorflow  # noqa
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa
    null = os.open(os.devnull, os.O_WRONLY)
    for line in sys.stdin:
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.dup2(null, 1)
            os.dup2(os.open(os.path.join(job['scratch'], 'log'), os.O_WRONLY | os.O_CREAT), 2)
            check_copy(job['copy'], job['props'], job['shard'], job['scratch'], job['out'])
        end = time.time() + job.get('limit', 500)
        while time.time() < end:
            if os.waitpid(pid, os.WNOHANG)[0]:
                break
            time.sleep(0.05)
        else:
            os.killpg(pid, 9)
            os.waitpid(pid, 0)
        print('done', flush=True)


def server():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', PYTHONWARNINGS='ignore',
               HYPOTHESIS_NO_PLUGINS='1', PYTHONPATH='/opt/vp/plugin', TF_NUM_INTRAOP_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return subprocess.Popen(['/opt/venv/bin/python', os.path.abspath(__file__), 'serve'], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL, text=True)


def run_one(m, srv, shard):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        c = os.path.join(d, 'repo')
        shutil.copytree(REPO, c, ignore=shutil.ignore_patterns('.git', '__pycache__', 'pictures'))
        p = os.path.join(c, 'tensorD', m['file'])
        src = open(p, newline='').read().replace('\r\n', '\n')
        assert src[m['a']:m['b']] == m['old']
        open(p, 'w', newline='').write(src[:m['a']] + m['new'] + src[m['b']:])
        s = os.path.join(d, 's')
        os.makedirs(s)
        t = time.time()
        srv.stdin.write(json.dumps(dict(copy=c, props=m['props'], shard=shard, scratch=s, out=d + '/out')) + '\n')
        srv.stdin.flush()
        while srv.stdout.readline().strip() != 'done':
            assert srv.poll() is None
        try:
            r = json.load(open(d + '/out'))
        except (OSError, ValueError):
            r = dict(prop='crash-or-timeout', msg=open(s + '/log', errors='replace').read()[-300:] if os.path.exists(s + '/log') else '')
        r['t'] = round(time.time() - t)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cmd_run(path, res, n, shard):
    ms = [json.loads(l) for l in open(path)]
    done = {json.loads(l)['id'] for l in open(res)} if os.path.exists(res) else set()
    ms = [m for m in ms if m['id'] not in done]
    random.Random(7).shuffle(ms)
    lock, f = threading.Lock(), open(res, 'a')

    def work():
        srv = server()
        while True:
            with lock:
                if not ms:
                    break
                m = ms.pop()
            r = run_one(m, srv, shard)
            with lock:
                f.write(json.dumps(dict(m, result=r)) + '\n')
                f.flush()
        srv.stdin.close()
        srv.wait()
    ts = [threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        cmd_list(sys.argv[2])
    elif sys.argv[1] == 'run':
        cmd_run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 8, int(os.environ.get('SHARD', '0')))
    else:
        cmd_serve()
