#!/usr/bin/env python3
"""Developer tool (never run by a check): systematic small mutations of /repo's sources, run against the quick checks.

mutate.py list FILE                       number of mutants
mutate.py run FILE STEP OFFSET CHECK...   every STEP-th mutant; reports the ones no check catches
Works on scratch copies only.
"""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get('MUT_WORKERS', '4'))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}


def sites(tree):
    """(node, kind) of every mutation"""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n.value)
        if isinstance(n, ast.FunctionDef):
            for a in ast.walk(n.args):
                doc.add(a)
    def verbose(n):
        return isinstance(n, ast.If) and 'verbose' in ast.unparse(n.test)
    skip = set()
    for n in ast.walk(tree):
        if verbose(n) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'print'):
            for x in ast.walk(n):
                skip.add(x)
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ('math_check', 'generate_random_value') or fn.name.startswith('simple_hand'):
            continue
        for n in ast.walk(fn):
            if n in doc or n in skip:
                continue
            if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                out.append((fn, n, 'cmp'))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, 'value', 0), str):
                out.append((fn, n, 'bin'))
            elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                out.append((fn, n, 'bin'))
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                out.append((fn, n, 'inc'))
                if n.value > 0:
                    out.append((fn, n, 'dec'))
            elif isinstance(n, ast.Constant) and type(n.value) is float:
                out.append((fn, n, 'fl'))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((fn, n, 'bool'))
            elif isinstance(n, ast.BoolOp):
                out.append((fn, n, 'boolop'))
            elif isinstance(n, ast.Break):
                out.append((fn, n, 'nobreak'))
            elif isinstance(n, ast.If):
                out.append((fn, n, 'iftrue'))
                out.append((fn, n, 'iffalse'))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                out.append((fn, n, 'unary'))
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not isinstance(n.func, ast.Attribute) and getattr(n.func, 'id', '') not in ('mul', 'add', 'inner_product', 'add_vectors'):
                out.append((fn, n, 'swap'))
    return out


def mutate(src, k):
    tree = ast.parse(src)
    fn, n, kind = sites(tree)[k]
    before = ast.unparse(n)
    class T(ast.NodeTransformer):
        def generic_visit(self, x):
            if x is n:
                if kind == 'unary':
                    return x.operand
                if kind == 'nobreak':
                    return ast.copy_location(ast.Pass(), x)
            return super().generic_visit(x)
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'inc':
        n.value += 1
    elif kind == 'dec':
        n.value -= 1
    elif kind == 'fl':
        n.value = n.value * 1e3 if n.value else 1e-3
    elif kind == 'bool':
        n.value = not n.value
    elif kind == 'boolop':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'iftrue':
        n.test = ast.Constant(True)
    elif kind == 'iffalse':
        n.test = ast.Constant(False)
    elif kind == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    after = '' if kind in ('unary', 'nobreak') else ast.unparse(n)
    return ast.unparse(tree), '%s:%d %s  %s  ->  %s' % (fn.name, n.lineno, kind, before[:100].replace('\n', ' '), after[:100].replace('\n', ' '))


def main():
    rel = sys.argv[2]
    src = open(os.path.join('/repo', rel)).read()
    total = len(sites(ast.parse(src)))
    if sys.argv[1] == 'list':
        print(rel, total)
        return
    step, off = int(sys.argv[3]), int(sys.argv[4])
    checks = sys.argv[5:]
    import queue
    q = queue.Queue()
    base = tempfile.mkdtemp(prefix='mut_')
    for w in range(W):
        d = os.path.join(base, str(w))
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/repo/src')
        if rel.startswith('src_cython'):
            shutil.copytree('/repo/src_cython', d + '/repo/src_cython')
        shutil.copytree(ROOT + '/harness', d + '/v/harness', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copyfile(ROOT + '/known_findings.json', d + '/v/known_findings.json')
        q.put(d)
    done = [0, 0, 0]

    def work(k):
        text, what = mutate(src, k)
        if ast.dump(ast.parse(text)) == ast.dump(ast.parse(src)):
            return
        d = q.get()
        try:
            p = os.path.join(d, 'repo', rel)
            open(p, 'w').write(text)
            caught = None
            for c in checks:
                env = dict(os.environ, VERIF_DEV_REPO=d + '/repo', VERIF_NPROC=str(max(1, 8 // W)), VERIF_SEED='1')
                try:
                    r = subprocess.run(['timeout', '-k', '5', '400', '/opt/venv/bin/python', 'harness/run.py', c, 'quick'], cwd=d + '/v', env=env, text=True, capture_output=True)
                except Exception as e:
                    r = None
                if r is not None and r.returncode != 0:
                    caught = c
                    if r.returncode != 1 or 'VIOLATION' not in r.stdout:
                        done[2] += 1
                        print('ODD    %s #%d %s [%s rc=%d] %s' % (rel, k, what, c, r.returncode, (r.stdout + r.stderr)[-300:]), flush=True)
                    break
            done[0] += 1
            if caught:
                done[1] += 1
                if os.environ.get('MUT_V'):
                    print('caught %s #%d %s [%s]' % (rel, k, what, caught), flush=True)
            else:
                print('MISSED %s #%d %s' % (rel, k, what), flush=True)
        finally:
            open(os.path.join(d, 'repo', rel), 'w').write(src)
            q.put(d)

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(work, range(off, total, step)))
    print('%s: %d of %d mutants run, %d caught, %d odd' % (rel, done[0], total, done[1], done[2]))
    shutil.rmtree(base)


main()
