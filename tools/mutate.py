"""Development tool: systematic mutants of jschon, to find what the checks do not see.
usage: mutate.py OUT [file-substring...]    (stride by MUT_STRIDE, default 6)"""
import ast
import concurrent.futures
import os
import queue
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = {
    'jschon/json.py': 'C11 C19 C13 C12 C15 C16 C03 C26',
    'jschon/jsonpatch.py': 'C17 C20 C18 C19',
    'jschon/jsonpointer.py': 'C14 C15 C16 C17 C05 C09',
    'jschon/jsonschema.py': 'C02 C08 C05 C10 C09 C24 C26 C07 C06 C04 C25 C27',
    'jschon/output.py': 'C10 C08 C09',
    'jschon/uri.py': 'C21 C05 C24 C22',
    'jschon/utils.py': 'C12 C22 C01',
    'jschon/catalog/__init__.py': 'C24 C22 C23 C26 C28 C05 C25',
    'jschon/catalog/_2019_09.py': 'C26 C01 C27',
    'jschon/catalog/_2020_12.py': 'C26 C01 C27',
    'jschon/vocabulary/__init__.py': 'C26 C02 C03 C08 C25 C27',
    'jschon/vocabulary/annotation.py': 'C08 C26',
    'jschon/vocabulary/applicator.py': 'C02 C03 C04 C08 C10 C09',
    'jschon/vocabulary/core.py': 'C05 C06 C26 C24 C27 C25',
    'jschon/vocabulary/format.py': 'C28',
    'jschon/formats.py': 'C28',
    'jschon/__init__.py': 'C28 C25 C24',
    'jschon/vocabulary/legacy.py': 'C03 C04 C06 C08 C09 C26',
    'jschon/vocabulary/validation.py': 'C01 C03 C08 C10',
}
PY = '/opt/venv/bin/python'
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def mutants(src):
    """Yields (line, description, new source)."""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def put(n, text):
        i, j = span(n)
        return (b[:i] + text.encode() + b[j:]).decode()

    def text(n):
        i, j = span(n)
        return b[i:j].decode()

    doc = set()
    for n in ast.walk(tree):
        body = getattr(n, 'body', None)
        if isinstance(body, list):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    doc.add(id(s.value))
                    doc.add(id(s))
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if a is not None:
                for x in ast.walk(a):
                    doc.add(id(x))
        if isinstance(n, (ast.JoinedStr,)):
            for x in ast.walk(n):
                if x is not n:
                    doc.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                if x is not n:
                    doc.add(id(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'fail':
            for a in n.args:
                for x in ast.walk(a):
                    doc.add(id(x))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.dump(n.test):
            for x in ast.walk(n):
                doc.add(id(x))
    inside = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for s in f.body:
                inside.update(map(id, ast.walk(s)))
        elif isinstance(f, ast.ClassDef):
            for s in f.body:
                if isinstance(s, ast.Assign):
                    inside.update(map(id, ast.walk(s)))
    for n in ast.walk(tree):
        if id(n) not in inside or id(n) in doc or isinstance(n, (ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP[type(n.ops[0])]:
                yield n.lineno, f'{text(n)} -> {new}', put(n, f'{text(n.left)} {new} {text(n.comparators[0])}')
        elif isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            yield n.lineno, f'{text(n)[:60]} -> {op}', put(n, '(' + f' {op} '.join(f'({text(v)})' for v in n.values) + ')')
            for v in n.values:
                rest = [x for x in n.values if x is not v]
                yield n.lineno, f'{text(n)[:60]} without {text(v)[:40]}', put(n, '(' + (' and ' if op == 'or' else ' or ').join(f'({text(x)})' for x in rest) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, f'drop not: {text(n)[:60]}', put(n, f'bool({text(n.operand)})')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield n.lineno, f'{text(n)[:60]} flipped', put(n, f'{text(n.left)} {"-" if isinstance(n.op, ast.Add) else "+"} {text(n.right)}')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                yield n.lineno, f'{v} flipped', put(n, str(not v))
            elif isinstance(v, int):
                yield n.lineno, f'{v} + 1', put(n, f'({v} + 1)')
                yield n.lineno, f'{v} - 1', put(n, f'({v} - 1)')
            elif isinstance(v, str) and v and text(n)[:1] in '\'"rf':
                yield n.lineno, f'{v!r} -> other', put(n, "'x_mut'")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(text(n)) < 400:
                    i, j = span(n)
                    args = [text(a) for a in n.args] + [('**' if x.arg is None else x.arg + '=') + text(x.value) for x in n.keywords if x is not k]
                    yield n.lineno, f'{text(n)[:60]} without {k.arg}', put(n, f'{text(n.func)}({", ".join(args)})')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield n.lineno, 'slice without lower', put(n.lower, '')
            if n.upper is not None:
                yield n.lineno, 'slice without upper', put(n.upper, '')
        elif isinstance(n, ast.If):
            yield n.test.lineno, f'if {text(n.test)[:60]} -> False', put(n.test, 'False' if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)) else f'({text(n.test)}) and False')
            if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
                yield n.test.lineno, f'if {text(n.test)[:60]} -> True', put(n.test, 'True')
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.YieldFrom)):
            yield n.lineno, f'delete {text(n)[:80]}', put(n, 'pass')
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield n.lineno, f'delete {text(n)}', put(n, 'pass')
            yield n.lineno, f'swap {text(n)}', put(n, 'break' if isinstance(n, ast.Continue) else 'continue')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset >= 8:
            yield n.lineno, f'delete {text(n)[:80]}', put(n, 'pass')
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr)):
                yield n.lineno, f'{text(n)[:60]} -> =', put(n, f'{text(n.target)} = {text(n.value)}')
        elif isinstance(n, ast.Delete):
            yield n.lineno, f'delete {text(n)[:80]}', put(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield n.lineno, f'{text(n)[:60]} -> None', put(n, 'return None')
        elif isinstance(n, ast.Raise):
            yield n.lineno, f'delete {text(n)[:80]}', put(n, 'pass')
        elif isinstance(n, ast.IfExp):
            yield n.lineno, f'{text(n)[:60]} first', put(n, f'({text(n.body)})')
            yield n.lineno, f'{text(n)[:60]} second', put(n, f'({text(n.orelse)})')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield n.lineno, f'except {text(n.type)} -> nothing', put(n.type, '()')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                yield t.lineno, f'filter {text(t)[:60]} -> True', put(t, 'True')

def main():
    out = open(sys.argv[1], 'a')
    done = {l.split('\t')[1] for l in open(sys.argv[1]) if '\t' in l}
    files = [f for f in CHECKS if len(sys.argv) < 3 or any(x in f for x in sys.argv[2:])]
    stride = os.environ.get('MUT_STRIDE', '6')
    n = int(os.environ.get('MUT_JOBS', '8'))
    pool = queue.Queue()
    for i in range(n):
        d = f'/tmp/mut/{os.getpid()}-{i}'
        os.makedirs(d)
        shutil.copytree('/repo/jschon', d + '/jschon')
        pool.put(d)

    def one(path, line, what, new):
        d = pool.get()
        try:
            open(f'{d}/{path}', 'w').write(new)
            try:
                r = subprocess.run([PY, '-B', f'{HERE}/mut_run.py', stride, *CHECKS[path].split()], capture_output=True, text=True, timeout=900, cwd=d,
                                   env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED='0'))
                res = (r.stdout.strip().split('\n') or [''])[-1][:200] or 'CAUGHT died ' + r.stderr[-100:].replace('\n', ' ')
            except subprocess.TimeoutExpired:
                res = 'CAUGHT timeout'
            return path, line, what, res
        finally:
            shutil.copy(f'/repo/{path}', f'{d}/{path}')
            pool.put(d)

    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = []
        for path in files:
            src = open('/repo/' + path).read()
            for line, what, new in mutants(src):
                what = what.replace('\n', ' ').replace('\t', ' ')
                if f'{path}:{line}: {what}' in done:
                    continue
                try:
                    compile(new, path, 'exec')
                except SyntaxError:
                    continue
                fs.append(ex.submit(one, path, line, what, new))
        print(len(fs), 'mutants', flush=True)
        for f in concurrent.futures.as_completed(fs):
            path, line, what, res = f.result()
            out.write(f'{res.split(" ")[0]}\t{path}:{line}: {what}\t{res}\n')
            out.flush()
    for i in range(n):
        shutil.rmtree(f'/tmp/mut/{os.getpid()}-{i}', ignore_errors=True)


main()
