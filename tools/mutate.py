#!/opt/venv/bin/python
""" Measures the checks against mechanical changes of the code under test.

Usage: mutate.py OUT.jsonl [--file SUBSTRING] [--sample N] [--seed S]
                 [--jobs N] [--all] [--near] [--skip SUBSTRING] [--budget S] [--deep]
Makes one small change at a time in a scratch copy of /repo under /tmp, drops
those that the repository's own tests notice, and runs the checks' quick
tiers on the others until one reports a violation. Results are appended to
OUT.jsonl, and mutants already there are skipped. --near runs only the
checks of properties that name the changed file; --budget gives each check
that many seconds. --deep makes larger changes than operators and constants.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PY = '/opt/venv/bin/python'
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}
TURN = {ast.Lt: '>=', ast.LtE: '>', ast.Gt: '<=', ast.GtE: '<'}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}


class Source:
    """ Source text addressed by AST positions. """

    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for line in text.split('\n'):
            self.starts.append(self.starts[-1] + len(line.encode()) + 1)
        self.data = text.encode()

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset,
                self.starts[node.end_lineno - 1] + node.end_col_offset)

    def get(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode()

    def put(self, a, b, new):
        return (self.data[:a] + new.encode() + self.data[b:]).decode()


def mutants(text):
    """ (line, description, changed text) of every change. """
    src, tree = Source(text), ast.parse(text)
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if ast.get_docstring(node, clean=False) is not None:
                skip.add(node.body[0])
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(node))
    out = []

    def add(node, new, what, a=None, b=None):
        if a is None:
            a, b = src.span(node)
        out.append((node.lineno, what, src.put(a, b, new)))
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            left, right = src.get(node.left), src.get(node.comparators[0])
            for table in (SWAP, TURN):
                op = table.get(type(node.ops[0]))
                if op:
                    add(node, '(%s) %s (%s)' % (left, op, right),
                        'compare %s' % op)
        elif isinstance(node, ast.BinOp) and type(node.op) in ARITH:
            left, right = src.get(node.left), src.get(node.right)
            add(node, '((%s) %s (%s))' % (left, ARITH[type(node.op)], right),
                'arith %s' % ARITH[type(node.op)])
        elif isinstance(node, ast.BoolOp):
            word = ' and ' if isinstance(node.op, ast.Or) else ' or '
            add(node, '(' + word.join(
                '(%s)' % src.get(v) for v in node.values) + ')',
                'bool' + word)
            for i in range(len(node.values)):
                word2 = ' or ' if isinstance(node.op, ast.Or) else ' and '
                rest = [v for j, v in enumerate(node.values) if j != i]
                add(node, '(' + word2.join(
                    '(%s)' % src.get(v) for v in rest) + ')',
                    'bool drop %d' % i)
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, (ast.Not, ast.USub)):
                add(node, '(%s)' % src.get(node.operand), 'unary drop')
        elif isinstance(node, ast.Constant):
            val = node.value
            if isinstance(val, bool):
                add(node, str(not val), 'const %s' % (not val))
            elif isinstance(val, (int, float)):
                add(node, repr(val + 1), 'const %r' % (val + 1))
                if val:
                    add(node, '0', 'const 0')
            elif val is None:
                pass
        elif isinstance(node, ast.If):
            add(node.test, 'False', 'if False')
            add(node.test, 'True', 'if True')
        elif isinstance(node, ast.IfExp):
            add(node, '(%s)' % src.get(node.body), 'ifexp body')
            add(node, '(%s)' % src.get(node.orelse), 'ifexp else')
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(node, 'pass', 'drop call')
        elif isinstance(node, ast.AugAssign):
            add(node, 'pass', 'drop augassign')
            op = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=',
                  ast.Div: '*='}.get(type(node.op))
            if op:
                add(node, '%s %s (%s)' % (src.get(node.target), op,
                                          src.get(node.value)), 'aug ' + op)
        elif isinstance(node, ast.Assign) and isinstance(
                node.targets[0], (ast.Attribute, ast.Subscript)):
            add(node, 'pass', 'drop assign')
        elif isinstance(node, ast.Delete):
            add(node, 'pass', 'drop del')
        elif isinstance(node, (ast.Continue, ast.Break)):
            add(node, 'pass', 'drop jump')
        elif isinstance(node, ast.Return) and node.value is not None \
                and not isinstance(node.value, ast.Constant):
            pass
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in NAMES:
                add(node.func, NAMES[node.func.id], NAMES[node.func.id])
            if len(node.keywords) + len(node.args) > 0:
                for kw in node.keywords:
                    if kw.arg is None:
                        continue
                    rest = [src.get(a) for a in node.args] + [
                        ('%s=%s' % (k.arg, src.get(k.value))) if k.arg
                        else '**' + src.get(k.value)
                        for k in node.keywords if k is not kw]
                    add(node, '%s(%s)' % (src.get(node.func),
                                          ', '.join(rest)),
                        'drop arg %s' % kw.arg)
            # A conversion left out.
            if len(node.args) == 1 and not node.keywords and (
                    src.get(node.func).endswith('precision_convert')
                    or src.get(node.func) in (
                        'set', 'list', 'dict', 'copy', 'deepcopy', 'abs',
                        'sorted', 'copy.copy')):
                add(node, '(%s)' % src.get(node.args[0]), 'drop conversion')
    return out


def deep_mutants(text):
    """ Changes of the kind people make: falsy for None, stale caches,
    the wrong year, conditions of comprehensions left out, and so on. """
    src, tree = Source(text), ast.parse(text)
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if ast.get_docstring(node, clean=False) is not None:
                skip.add(node.body[0])
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(node))
    out = []

    def add(node, new, what, a=None, b=None):
        if a is None:
            a, b = src.span(node)
        out.append((node.lineno, what, src.put(a, b, new)))
    years = {'this_year': 'initial_year', 'initial_year': 'this_year'}
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1 \
                and isinstance(node.comparators[0], ast.Constant) \
                and node.comparators[0].value is None:
            left = src.get(node.left)
            if isinstance(node.ops[0], ast.Is):
                add(node, '(not %s)' % left, 'falsy')
            elif isinstance(node.ops[0], ast.IsNot):
                add(node, '(%s)' % left, 'truthy')
        if isinstance(node, ast.Attribute) and node.attr in years \
                and isinstance(node.ctx, ast.Load):
            base = src.get(node.value)
            add(node, '%s.%s' % (base, years[node.attr]), 'other year')
            add(node, '(%s + 1)' % src.get(node), 'next year')
            add(node, '(%s - 1)' % src.get(node), 'last year')
        if isinstance(node, (ast.GeneratorExp, ast.ListComp, ast.SetComp,
                             ast.DictComp)):
            for gen in node.generators:
                for cond in gen.ifs:
                    add(cond, 'True', 'drop filter')
                add(gen.iter, 'list(%s)[:2]' % src.get(gen.iter),
                    'first two of')
                add(gen.iter, 'list(dict.fromkeys(%s))' % src.get(gen.iter),
                    'distinct of')
            if isinstance(node, (ast.GeneratorExp, ast.ListComp)):
                add(node, '(list(dict.fromkeys(%s)))' % src.get(node).join(
                    '()') , 'distinct')
        if isinstance(node, ast.For):
            add(node.iter, 'list(%s)[:2]' % src.get(node.iter),
                'first two for')
            add(node.iter, 'list(%s)[::-1]' % src.get(node.iter),
                'reversed for')
        if isinstance(node, ast.Call):
            func = src.get(node.func)
            if func == 'isinstance' and len(node.args) == 2:
                a, b = (src.get(x) for x in node.args)
                add(node, '(type(%s) in (%s,))' % (a, b), 'exact type')
            if func in ('max', 'min') and len(node.args) > 1:
                for i in range(len(node.args)):
                    rest = [src.get(x) for j, x in enumerate(node.args)
                            if j != i]
                    add(node, '(%s)' % rest[0] if len(rest) == 1 else
                        '%s(%s)' % (func, ', '.join(rest)),
                        'drop bound %d' % i)
            if func == 'sum' and node.args:
                add(node.func, 'max', 'max for sum')
            if len(node.args) == 2 and not node.keywords and not any(
                    isinstance(x, ast.Starred) for x in node.args) \
                    and func not in ('max', 'min', 'isinstance'):
                a, b = (src.get(x) for x in node.args)
                add(node, '%s(%s, %s)' % (func, b, a), 'swap args')
            if isinstance(node.func, ast.Attribute) and \
                    node.func.attr in ('copy', 'values', 'keys'):
                if node.func.attr == 'copy':
                    add(node, src.get(node.func.value), 'no copy')
                if node.func.attr == 'values':
                    add(node, 'set(%s)' % src.get(node), 'distinct values')
            if isinstance(node.func, ast.Attribute) and \
                    node.func.attr == 'clear_cache':
                add(node, 'None', 'keep cache')
        if isinstance(node, ast.BinOp) and type(node.op) in ARITH:
            left, right = src.get(node.left), src.get(node.right)
            add(node, '(%s)' % left, 'left only')
            add(node, '(%s)' % right, 'right only')
        if isinstance(node, ast.While):
            a, _ = src.span(node)
            add(node, 'if', 'if for while', a, a + 5)
        if isinstance(node, ast.AugAssign):
            add(node, '%s = %s' % (src.get(node.target),
                                   src.get(node.value)), 'aug =')
        if isinstance(node, ast.Return) and node.value is not None \
                and not isinstance(node.value, ast.Constant):
            add(node.value, 'round(%s, 2)' % src.get(node.value), 'cents')
            add(node.value, 'max(%s, 0)' % src.get(node.value),
                'non-negative')
        if isinstance(node, ast.FunctionDef):
            for deco in node.decorator_list:
                name = src.get(deco)
                other = {
                    'property': '__import__("functools").cached_property',
                    'recorded_property': 'recorded_property_cached',
                    'recorded_property_cached': 'recorded_property',
                    'cached_property': 'property'}.get(name)
                if other and not any(
                        src.get(d).startswith(node.name + '.')
                        for f in ast.walk(tree)
                        if isinstance(f, ast.FunctionDef)
                        for d in f.decorator_list):
                    add(deco, other, 'deco ' + other[-24:])
        for field in ('body', 'orelse'):
            block = getattr(node, field, None)
            if not isinstance(block, list):
                continue
            for one, two in zip(block, block[1:]):
                if one in skip or isinstance(
                        one, (ast.FunctionDef, ast.ClassDef, ast.Import,
                              ast.ImportFrom)) \
                        or isinstance(two, (ast.FunctionDef, ast.ClassDef)):
                    continue
                a, b = src.span(one)
                c, d = src.span(two)
                mid = src.data[b:c].decode()
                if one.lineno == two.lineno:
                    continue
                out.append((one.lineno, 'swap statements', src.put(
                    a, d, src.get(two) + mid + src.get(one))))
            for stmt in block:
                if isinstance(stmt, ast.Expr) and isinstance(
                        stmt.value, ast.Call) and 'super()' in src.get(stmt):
                    pass
    return out


def command(args, cwd, env, timeout):
    proc = subprocess.Popen(
        args, cwd=cwd, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = proc.communicate(timeout=timeout)
        return proc.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, 9)
        proc.communicate()
        return None, 'timeout'


def relevant(only_near=False):
    """ The checks to run for a file, those that concern it first. """
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    props = [json.loads(line) for line in open(
        os.path.join(VERIF, 'properties.jsonl'))]
    ids = [p['id'] for p in props]

    def order(file):
        near = [p['id'] for p in props if file in json.dumps(p)]
        return near if only_near and near else near + [
            i for i in ids if i not in near]
    return order


class Worker:
    """ A scratch copy in which mutants are tried. """

    def __init__(self, args, order):
        self.args, self.order = args, order
        self.tree = tempfile.mkdtemp(prefix='mutate-')
        subprocess.check_call(
            'git -C /repo archive HEAD | tar x -C %s' % self.tree, shell=True)
        self.evidence = tempfile.mkdtemp(prefix='mutate-ev-')

    def close(self):
        shutil.rmtree(self.tree)
        shutil.rmtree(self.evidence)

    def run(self, file, line, what, text, tests=False):
        path = os.path.join(self.tree, file)
        old = open(path).read()
        record = {'file': file, 'line': line, 'what': what}
        env = dict(os.environ, PYTHONPATH=self.tree, VERIF_REPO=self.tree,
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   VERIF_EVIDENCE_DIR=self.evidence,
                   VERIF_REPLAY_DIR=self.evidence)
        try:
            compile(text, file, 'exec')
        except (SyntaxError, ValueError):
            return dict(record, result='invalid')
        with open(path, 'w') as out:
            out.write(text)
        try:
            if tests:
                code, _ = command(
                    [PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', 'tests',
                     '-p', 'no:cacheprovider'], self.tree, env, 60)
                return dict(record, result='tests' if code else 'passed')
            odd = {}
            budget = []
            if self.args.budget:
                budget = ['--budget', str(self.args.budget)]
            for prop in self.order(file):
                code, out = command(
                    [PY, '-W', 'ignore', os.path.join(VERIF, 'run.py'),
                     prop, '--tier', 'quick', '--jobs', '1'] + budget,
                    self.tree, env, 900)
                if code == 1:
                    mech = [ln.split(':', 1)[1].strip()
                            for ln in out.split('\n')
                            if ln.strip().startswith('mechanism:')]
                    return dict(record, result='killed', by=prop,
                                mechanism=mech[:1], odd=odd)
                if code != 0:
                    odd[prop] = out[-300:]
                if not self.args.all and len(odd) > 3:
                    break
            return dict(record, result='survived', odd=odd)
        finally:
            with open(path, 'w') as out:
                out.write(old)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('out')
    parser.add_argument('--file', default='')
    parser.add_argument('--sample', type=int, default=0)
    parser.add_argument('--seed', type=int, default=1)
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--all', action='store_true')
    parser.add_argument('--deep', action='store_true')
    parser.add_argument('--near', action='store_true')
    parser.add_argument('--skip', default='\0')
    parser.add_argument('--budget', type=float, default=0)
    args = parser.parse_args()
    todo = []
    for folder, _, names in os.walk('/repo/forecaster'):
        for name in sorted(names):
            file = os.path.relpath(os.path.join(folder, name), '/repo')
            if name.endswith('.py') and args.file in file \
                    and args.skip not in file:
                text = open('/repo/' + file).read()
                seen = set()
                make = deep_mutants if args.deep else mutants
                for line, what, new in make(text):
                    while (line, what) in seen:
                        what += "'"
                    seen.add((line, what))
                    todo.append((file, line, what, new))
    done, passed = set(), set()
    if os.path.exists(args.out):
        for row in map(json.loads, open(args.out)):
            key = (row['file'], row['line'], row['what'])
            (passed if row['result'] == 'passed' else done).add(key)
    rng = random.Random(args.seed)
    rng.shuffle(todo)
    if args.sample:
        todo = todo[:args.sample]
    todo = [t for t in todo if t[:3] not in done]
    print(len(todo), 'mutants', flush=True)
    order, lock = relevant(args.near), Lock()
    workers = [Worker(args, order) for _ in range(args.jobs)]

    def one(item, tests=False):
        with lock:
            worker = workers.pop()
        try:
            row = worker.run(*item, tests=tests)
        finally:
            with lock:
                workers.append(worker)
        with lock, open(args.out, 'a') as out:
            out.write(json.dumps(row) + '\n')
        return row['result'] == 'passed'
    try:
        with ThreadPoolExecutor(args.jobs) as pool:
            fresh = [t for t in todo if t[:3] not in passed]
            keep = list(pool.map(lambda item: one(item, True), fresh))
            left = [t for t in todo if t[:3] in passed]
            left += [t for t, ok in zip(fresh, keep) if ok]
            print(len(left), 'not noticed by the tests', flush=True)
            rng.shuffle(left)
            list(pool.map(one, left))
    finally:
        for worker in workers:
            worker.close()


if __name__ == '__main__':
    main()
