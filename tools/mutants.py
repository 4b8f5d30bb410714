"""Development tool: a survey of small changes to the code.

mutants.py list DIR      writes every mutant that passes the repository's tests
mutants.py traces DIR    says for which properties the recorded sessions of a
                         surviving mutant differ from those of the clean code
Mutants without a difference are equivalent, or the sessions miss something.
Works on copies of /repo below DIR (outside /repo and /verif) only.
"""
import ast
import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('MUT_REPO', '/repo')
FILES = ['parse_utils.py', 'parser.py', 'pattern.py', 'pattern_cluster.py', 'pattern_maker.py', 'pattern_matcher.py',
         'parsed_piece_view.py', 'piece_pattern_node.py', 'utils.py', 'formatter.py', 'cmdline.py', 'definition.py']
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}


def variants(node):
    """Replacements of a node."""
    def put(**kw):
        n = copy.deepcopy(node)
        for k, v in kw.items():
            setattr(n, k, v)
        return n
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        if type(node.ops[0]) in SWAP:
            yield put(ops=[SWAP[type(node.ops[0])]()])
        if isinstance(node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            for d in (1, -1):
                yield put(comparators=[ast.BinOp(node.comparators[0], ast.Add() if d > 0 else ast.Sub(), ast.Constant(1))])
    if isinstance(node, ast.BoolOp):
        yield put(op=ast.And() if isinstance(node.op, ast.Or) else ast.Or())
        for i in range(len(node.values)):
            vs = node.values[:i] + node.values[i + 1:]
            yield vs[0] if len(vs) == 1 else put(values=vs)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node.operand
    if isinstance(node, ast.BinOp) and type(node.op) in ARITH and not isinstance(node.left, ast.Constant):
        yield put(op=ARITH[type(node.op)]())
    if isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            yield ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield ast.Constant(node.value + 1)
            yield ast.Constant(node.value - 1)
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        if not isinstance(node, ast.While):
            yield put(test=ast.Constant(True))
        yield put(test=ast.Constant(False))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(node, ast.Continue):
        yield ast.Break()
        yield ast.Pass()
    if isinstance(node, ast.Break):
        yield ast.Continue()
        yield ast.Pass()
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('sorted', 'set', 'tuple', 'reversed', 'list', 'str') \
            and len(node.args) == 1:
        yield node.args[0]
    if isinstance(node, ast.Call) and node.keywords:
        for i in range(len(node.keywords)):
            yield put(keywords=node.keywords[:i] + node.keywords[i + 1:])
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            yield put(lower=None)
        if node.upper is not None:
            yield put(upper=None)


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        parents[x] = (n, f, i)
            elif isinstance(v, ast.AST):
                parents[v] = (n, f, None)
    for n in nodes:
        if n not in parents:
            continue
        p, f, i = parents[n]
        for v in variants(n):
            if i is None:
                setattr(p, f, v)
            else:
                getattr(p, f)[i] = v
            try:
                yield getattr(n, 'lineno', 0), ast.unparse(n)[:80], ast.unparse(v)[:80], ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                pass
            if i is None:
                setattr(p, f, n)
            else:
                getattr(p, f)[i] = n


def copy_repo(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('src', 'tests', 'setup.py', 'setup.cfg', 'tox.ini', 'pytest.ini', 'README.rst', '.coveragerc'):
        if os.path.isdir(REPO + '/' + x):
            shutil.copytree(REPO + '/' + x, d + '/' + x)
        elif os.path.exists(REPO + '/' + x):
            shutil.copy(REPO + '/' + x, d)


def env(d, **kw):
    return dict(os.environ, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=d,
                PATH='/opt/venv/bin:' + os.environ['PATH'], COVERAGE_FILE=os.path.join(os.path.dirname(d), 'cov', 'c'), **kw)


def tests(d):
    try:
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env(d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def listing(base):
    todo = []
    for f in FILES:
        src = open(REPO + '/src/os_urlpattern/' + f).read()
        seen = {ast.unparse(ast.parse(src))}
        for line, a, b, text in mutants(src):
            if text not in seen:
                seen.add(text)
                todo.append((f, line, a, b, text))
    print(len(todo), 'mutants')
    n = 8
    for i in range(n):
        copy_repo('%s/w%d' % (base, i))
    assert tests(base + '/w0'), 'tests fail on the clean copy'
    out = []

    def lane(i):
        d = '%s/w%d' % (base, i)
        for k in range(i, len(todo), n):
            f, line, a, b, text = todo[k]
            p = d + '/src/os_urlpattern/' + f
            old = open(p).read()
            open(p, 'w').write(text)
            if tests(d):
                out.append((k, todo[k]))
            open(p, 'w').write(old)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(lane, range(n)))
    out.sort()
    with open(base + '/survivors.json', 'w') as fh:
        json.dump([dict(n=k, file=t[0], line=t[1], old=t[2], new=t[3], text=t[4]) for k, t in out], fh)
    print(len(out), 'pass the tests')


# where the effect of a change to a file is judged most strictly
PROPS = {'parse_utils.py': 'C01 C02 C03 C15', 'parser.py': 'C01 C04 C15', 'pattern.py': 'C15 C13 C16',
         'pattern_cluster.py': 'C16 C16 C16', 'pattern_maker.py': 'C16 C10 C20 C19', 'pattern_matcher.py': 'C13 C14 C21',
         'parsed_piece_view.py': 'C16 C13 C14', 'piece_pattern_node.py': 'C16 C21 C05', 'utils.py': 'C16 C13 C17 C21',
         'formatter.py': 'C25 C19 C17', 'cmdline.py': 'C17 C18', 'definition.py': 'C01 C02 C15'}
PROPS = {f: [(x, i) for i, x in enumerate(v.split())] for f, v in PROPS.items()}


def play(prop, d, path, count, part):
    cmd = [PY, '-B', HERE + '/lib/worker.py', prop, 'quick', '1', str(part), '8', path, '0', str(count), '1']
    try:
        p = subprocess.run(cmd, env=env(d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
    except subprocess.TimeoutExpired:
        return 'timeout'
    if p.returncode:
        return 'failed'
    h = hashlib.md5(open(path, 'rb').read()).hexdigest()
    os.unlink(path)
    return h


def traces(base, count=100):
    surv = json.load(open(base + '/survivors.json'))
    n = 8
    for i in range(n):
        copy_repo('%s/w%d' % (base, i))
    clean = {}
    jobs = sorted(set(j for v in PROPS.values() for j in v))
    with ThreadPoolExecutor(n) as ex:
        for (p, part), h in zip(jobs, ex.map(lambda j: play(j[0], base + '/w0', '%s/c-%s-%d' % (base, j[0], j[1]), count, j[1]), jobs)):
            clean[p, part] = h
    again = dict(zip(jobs, ThreadPoolExecutor(n).map(
        lambda j: play(j[0], base + '/w1', '%s/d-%s-%d' % (base, j[0], j[1]), count, j[1]), jobs)))
    jobs = [j for j in jobs if clean[j] == again[j] and len(clean[j]) > 20]
    print('used:', jobs, flush=True)
    res = {}

    def lane(i):
        d = '%s/w%d' % (base, i)
        for k in range(i, len(surv), n):
            m = surv[k]
            p = d + '/src/os_urlpattern/' + m['file']
            old = open(p).read()
            open(p, 'w').write(m['text'])
            got = None
            for j in PROPS[m['file']]:
                if j in jobs and play(j[0], d, '%s/t%d' % (base, i), count, j[1]) != clean[j]:
                    got = j[0]
                    break
            open(p, 'w').write(old)
            res[k] = got
            print(k, m['file'], m['line'], m['old'], '->', m['new'], '|', got, flush=True)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(lane, range(n)))
    with open(base + '/result.json', 'w') as fh:
        json.dump([dict(file=m['file'], line=m['line'], old=m['old'], new=m['new'], seen=res[k]) for k, m in enumerate(surv)], fh, indent=0)
    print('unseen: %d of %d' % (sum(1 for v in res.values() if v is None), len(res)))


if __name__ == '__main__':
    {'list': listing, 'traces': traces}[sys.argv[1]](sys.argv[2])
