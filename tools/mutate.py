"""Development aid: mutates the library's Python and asks which checks notice.

usage: mutate.py COVERAGE.json OUT.jsonl --count N [--seed S] [--files regex]

COVERAGE.json: [[file, line, [check ids]], ...] as collected with XMON_COVER.
Every mutant is a private copy of /repo under --work; nothing else is touched.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = ['P34', 'P15', 'P21', 'P24', 'P25', 'P20']

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*',
       ast.Mod: '//', ast.FloorDiv: '%'}
CALLS = {'deepcopy', 'copy', 'list', 'abs', 'float', 'int', 'sorted', 'array',
         'transpose', 'floor', 'sqrt', 'str', 'inv'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.lines = src.split('\n')
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1]+len(line.encode())+1)
        self.raw = src.encode()
        self.out = []
        self.func = []

    def span(self, node):
        return (self.starts[node.lineno-1]+node.col_offset,
                self.starts[node.end_lineno-1]+node.end_col_offset)

    def text(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.span(node)
        self.out.append((node.lineno, a, b, new, kind,
                         '.'.join(self.func)))

    def visit_FunctionDef(self, node):
        if re.search('overview_doc|print_tests|^test_|_random_rotated|has_',
                     node.name):
            return
        self.func.append(node.name)
        for default in node.args.defaults:
            if isinstance(default, ast.Constant) and \
                    isinstance(default.value, bool):
                self.add(default, str(not default.value), 'default')
        for sub in node.body:
            self.visit(sub)
        self.func.pop()

    def visit_ClassDef(self, node):
        self.func.append(node.name)
        for sub in node.body:
            self.visit(sub)
        self.func.pop()

    def visit_If(self, node):
        self.add(node.test, 'not (%s)' % self.text(node.test), 'negate')
        if not node.orelse:
            self.add(node.test, 'False', 'never')
        self.generic_visit(node)

    def visit_While(self, node):
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in CMP:
            self.add(node, '%s %s %s' % (
                self.text(node.left), CMP[type(node.ops[0])],
                self.text(node.comparators[0])), 'cmp')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BIN and not isinstance(node.left, ast.Constant) \
                or type(node.op) in BIN and not isinstance(
                    getattr(node.left, 'value', 0), str):
            txt = self.text(node)
            if '"' not in txt and "'" not in txt:
                self.add(node, '(%s%s%s)' % (
                    self.text(node.left), BIN[type(node.op)],
                    self.text(node.right)), 'arith')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        if len(node.values) == 2:
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            self.add(node, '(%s%s%s)' % (self.text(node.values[0]), op,
                                         self.text(node.values[1])), 'bool')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.add(node, '(%s)' % self.text(node.operand), 'unary')
        self.generic_visit(node)

    def visit_Constant(self, node):
        val = node.value
        if isinstance(val, bool):
            self.add(node, str(not val), 'const')
        elif isinstance(val, int):
            self.add(node, str(val+1), 'const')
            if val > 0:
                self.add(node, str(val-1), 'const')
        elif isinstance(val, float):
            self.add(node, repr(val*1.5 if val else 1.), 'const')

    def visit_Call(self, node):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else \
            getattr(node.func, 'id', '')
        if name in CALLS and len(node.args) == 1 and not node.keywords:
            self.add(node, '(%s)' % self.text(node.args[0]), 'unwrap')
        for kw in node.keywords:
            pass
        if len(node.args) >= 2 and all(isinstance(
                a, (ast.Name, ast.Attribute)) for a in node.args[-2:]):
            a, b = node.args[-2:]
            s0, e0 = self.span(a)
            s1, e1 = self.span(b)
            new = self.raw[s1:e1]+self.raw[e0:s1]+self.raw[s0:e0]
            self.out.append((a.lineno, s0, e1, new.decode(), 'swapargs',
                             '.'.join(self.func)))
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call) and self.func:
            name = self.text(node.value.func)
            if name not in ('print', 'sys.excepthook') and \
                    'ROOT' not in name:
                self.add(node, 'pass', 'drop')
        if not isinstance(node.value, ast.Constant):
            self.generic_visit(node)

    def visit_Raise(self, node):
        self.add(node, 'pass', 'drop')

    def visit_Assign(self, node):
        if self.func and isinstance(node.targets[0],
                                    (ast.Subscript, ast.Attribute)):
            self.add(node, 'pass', 'drop')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        if self.func:
            self.add(node, 'pass', 'drop')
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, 'pass', 'drop')

    def visit_Continue(self, node):
        self.add(node, 'pass', 'drop')


def mutants(root, rel, cov):
    src = open(os.path.join(root, rel)).read()
    find = Finder(src)
    find.visit(ast.parse(src))
    seen = set()
    for line, a, b, new, kind, func in find.out:
        if (a, b, new) in seen or not func:
            continue
        seen.add((a, b, new))
        checks = cov.get((rel, line), set())
        body = find.raw[:a]+new.encode()+find.raw[b:]
        try:
            compile(body, rel, 'exec')
        except (SyntaxError, ValueError):
            continue
        yield {'file': rel, 'line': line, 'kind': kind, 'func': func,
               'old': find.raw[a:b].decode(), 'new': new,
               'checks': sorted(checks), 'body': body.decode()}


DRIVER = r"""
import os, shutil, sys
sys.path.insert(0, sys.argv[1])
site, ident, seed = sys.argv[2:5]
from xmon import stage, harness
real = stage.stage
def fake(dest, kind='plain'):
    if kind != 'plain':
        return real(dest, kind)
    shutil.copytree(os.path.join(os.environ['XMON_REPO'], 'xboa'),
                    os.path.join(dest, 'xboa'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    core = os.path.join(site, 'xboa', 'core')
    for name in os.listdir(core):
        if name.endswith('.so'):
            shutil.copy(os.path.join(core, name),
                        os.path.join(dest, 'xboa', 'core'))
    return dest
stage.stage = fake
harness.EVIDENCE = os.path.join(os.path.dirname(os.environ['XMON_REPO']), 'ev')
sys.argv = ['check', ident, '--seed', seed, '--workers', '4']
sys.exit(harness.main())
"""


def run_one(num, mut, args, size):
    work = os.path.join(args.work, 'm%d' % num)
    shutil.rmtree(work, ignore_errors=True)
    repo = os.path.join(work, 'repo')
    os.makedirs(repo)
    shutil.copytree('/repo/xboa', os.path.join(repo, 'xboa'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__',
                                                  'test', '*.log'))
    shutil.copy('/repo/setup.py', repo)
    with open(os.path.join(repo, mut['file']), 'w') as fh:
        fh.write(mut['body'])
    env = dict(os.environ, XMON_REPO=repo, TMPDIR=work, PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    order = [c for c in mut['checks'] if c not in SLOW]
    order.sort(key=lambda c: (size.get((mut['file'], c), 0), c))
    order += [c for c in SLOW if c in mut['checks'] and (
        len(order) < 6 or c in ('P34', 'P15'))]
    res = {k: v for k, v in mut.items() if k != 'body'}
    res.update(killed=None, inconclusive=[], ran=[])
    t0 = time.time()
    for ident in order:
        try:
            out = subprocess.run(
                [sys.executable, '-B', '-c', DRIVER, args.verif, args.site,
                 ident, '1'], env=env, cwd=work, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            res['inconclusive'].append(ident+':timeout')
            continue
        res['ran'].append(ident)
        if out.returncode == 1 and 'VIOLATION' in out.stdout:
            res['killed'] = ident
            break
        if out.returncode:
            res['inconclusive'].append(ident+':'+out.stdout[-300:])
    res['wall'] = round(time.time()-t0, 1)
    shutil.rmtree(work, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('coverage')
    ap.add_argument('out')
    ap.add_argument('--count', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files', default='')
    ap.add_argument('--funcs', default='')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--verif', default=HERE)
    ap.add_argument('--work', default='/tmp/mut')
    ap.add_argument('--site', default='/tmp/mutsite')
    args = ap.parse_args()
    sys.path.insert(0, HERE)
    from xmon import stage
    if not os.path.isdir(args.site):
        stage.stage(args.site)
    cov, size = {}, {}
    for name, line, checks in json.load(open(args.coverage)):
        cov[(name, line)] = set(checks)
        for c in checks:
            size[(name, c)] = size.get((name, c), 0)+1
    pool = []
    for rel in sorted({f for f, _ in cov}):
        if '/test/' in rel or '/examples/' in rel or \
                not re.search(args.files, rel):
            continue
        pool += [m for m in mutants('/repo', rel, cov)
                 if m['checks'] and re.search(args.funcs, m['func'])]
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out):
            rec = json.loads(line)
            done.add((rec['file'], rec['line'], rec['old'], rec['new']))
    rng = random.Random(args.seed)
    rng.shuffle(pool)
    pool = [m for m in pool if (m['file'], m['line'], m['old'], m['new'])
            not in done][:args.count]
    print(len(pool), 'mutants')
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as exe, \
            open(args.out, 'a') as fh:
        futs = [exe.submit(run_one, i, m, args, size)
                for i, m in enumerate(pool)]
        for fut in concurrent.futures.as_completed(futs):
            fh.write(json.dumps(fut.result())+'\n')
            fh.flush()


if __name__ == '__main__':
    main()
