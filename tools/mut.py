#!/usr/bin/env python3
"""mut.py OPERATOR CHECK... [--file F] [--max N]: apply one syntactic mutation
at a time to scratch copies of /repo and list those no given check reports
(used while building the checks; nothing registered depends on it)."""
import ast, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {'hartree': 'eV', 'bohr': 'angstrom', 'angstrom': 'bohr', 'm_e': 'amu',
        'amu': 'm_e', '1/cm': 'meV', 'meV': 'eV', 'K': 'mK', 'mbarn': 'barn',
        'electron_mass': 'amu', 'E_h': 'eV', 'e**2': 'e**2*2', 'eV': 'meV',
        'cm': 'm'}


def seg(src, node):
    return ast.get_source_segment(src, node)


def offs(src, node):
    lines = src.splitlines(keepends=True)
    def o(l, c):
        return sum(len(x.encode()) for x in lines[:l-1]) + c
    return o(node.lineno, node.col_offset), o(node.end_lineno,
                                              node.end_col_offset)


def repl(src, node, new):
    a, b = offs(src, node)
    bs = src.encode()
    return (bs[:a] + new.encode() + bs[b:]).decode()


def op_dropto(src, tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'to':
            yield n.lineno, 'drop ' + seg(src, n)[-60:], repl(
                src, n, seg(src, n.func.value))


def op_unit(src, tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and (
                isinstance(n.func, ast.Attribute) and n.func.attr in
                ('to', 'ito') or isinstance(n.func, ast.Name)
                and n.func.id in ('ureg', 'Quantity')):
            for a in ast.walk(n):
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    for k, v in SWAP.items():
                        if re.search(r'\b' + re.escape(k) + r'(\b|$)',
                                     a.value):
                            new = re.sub(r'\b' + re.escape(k) + r'(\b|$)', v,
                                         a.value, count=1)
                            yield a.lineno, f'{a.value} -> {new}', repl(
                                src, a, repr(new))
                            break
                if isinstance(a, ast.Attribute) and isinstance(
                        a.value, ast.Name) and a.value.id == 'ureg' and \
                        a.attr in SWAP:
                    yield a.lineno, f'ureg.{a.attr}', repl(
                        src, a, 'ureg.' + SWAP[a.attr])


def op_dropcopy(src, tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and not n.keywords:
            f = seg(src, n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' \
                    and not n.args:
                yield n.lineno, 'drop ' + seg(src, n), repl(
                    src, n, seg(src, n.func.value))
            elif f in ('np.copy', 'copy.copy', 'copy.deepcopy', 'np.array',
                       'deepcopy', 'list', 'dict') and len(n.args) == 1:
                yield n.lineno, 'drop ' + seg(src, n), repl(
                    src, n, '(' + seg(src, n.args[0]) + ')')


def op_delstmt(src, tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr, ast.Raise, ast.Assign, ast.AugAssign)) \
                and not (isinstance(n, ast.Expr)
                         and isinstance(n.value, ast.Constant)):
            yield n.lineno, 'delete ' + seg(src, n)[:70], repl(
                src, n, 'pass')


def op_dropkw(src, tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                parts = [seg(src, a) for a in n.args] + [
                    f'{q.arg}={seg(src, q.value)}' if q.arg else
                    '**' + seg(src, q.value)
                    for q in n.keywords if q is not k]
                yield n.lineno, f'drop {k.arg}= of {seg(src, n.func)}', repl(
                    src, n, f"{seg(src, n.func)}({', '.join(parts)})")


OPS = {k[3:]: v for k, v in globals().items() if k.startswith('op_')}


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opt = dict((a[2:] + '=1').split('=')[:2] for a in sys.argv[1:]
               if a.startswith('--'))
    op, checks = args[0], args[1:]
    muts = []
    root = '/repo/euphonic'
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo')
            if not f.endswith('.py') or f == '_version.py' or \
                    opt.get('file', '') not in rel or \
                    ('cli' in rel) != ('cli' in opt.get('file', '')):
                continue
            src = open(p).read()
            for line, what, new in OPS[op](src, ast.parse(src)):
                if opt.get('grep', '') in what:
                    muts.append((rel, line, what, new))
    if 'max' in opt and len(muts) > int(opt['max']):
        random.Random(int(opt.get('seed', 1))).shuffle(muts)
        muts = muts[:int(opt['max'])]
    base = tempfile.mkdtemp(prefix='mut', dir='/tmp')

    def one(i):
        rel, line, what, new = muts[i]
        t = os.path.join(base, str(i))
        os.makedirs(t)
        for x in ('euphonic', 'c'):
            shutil.copytree('/repo/' + x, f'{t}/{x}',
                            ignore=shutil.ignore_patterns('*.so', '*.pyc'))
        for x in ('setup.py',):
            shutil.copy('/repo/' + x, t)
        open(f'{t}/{rel}', 'w').write(new)
        try:
            ast.parse(new)
        except SyntaxError:
            shutil.rmtree(t)
            return i, None, ''
        hit, out = [], ''
        for c in checks:
            r = subprocess.run([sys.executable, V + '/check.py', c],
                               env={**os.environ, 'VERIF_REPO': t,
                                    'VERIF_EVIDENCE': t},
                               capture_output=True, text=True)
            out += r.stdout[-300:] if r.returncode == 2 else ''
            if r.returncode:
                hit.append(f'{c}={r.returncode}')
        shutil.rmtree(t)
        return i, hit, out
    n = 0
    with ThreadPoolExecutor(int(opt.get('j', 8))) as ex:
        for i, hit, out in ex.map(one, range(len(muts))):
            rel, line, what, _ = muts[i]
            if hit is None:
                continue
            n += 1
            tag = 'caught ' + ','.join(hit) if hit else 'MISSED'
            if hit and 'quiet' in opt and not any('=2' in h for h in hit):
                continue
            print(f'{tag:18} {rel}:{line} {" ".join(what.split())} {out}',
                  flush=True)
    print(n, 'mutants')
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
