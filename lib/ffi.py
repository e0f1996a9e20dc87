"""The Python side of the C extension boundary (syntax tree only)."""
import ast
import os
from functools import lru_cache

import cfront
from cfront import REPO, AnalysisBroken


@lru_cache(None)
def modules():
    """{relative path: ast} for every module of the package."""
    out = {}
    root = os.path.join(REPO, 'euphonic')
    for d, _, files in os.walk(root):
        for f in sorted(files):
            if f.endswith('.py') and f != '_version.py':
                p = os.path.join(d, f)
                with open(p) as fh:
                    out[os.path.relpath(p, REPO)] = ast.parse(fh.read(), p)
    if not out:
        raise AnalysisBroken('no Python modules found')
    return out


def extension_calls():
    """[(path, function node, Call node, C function name)]"""
    out = []
    for path, tree in modules().items():
        aliases, direct = set(), {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.endswith('._euphonic'):
                        aliases.add(a.asname or a.name)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '_euphonic':
                        aliases.add(a.asname or a.name)
                    elif (n.module or '').endswith('_euphonic'):
                        direct[a.asname or a.name] = a.name
        if not aliases and not direct:
            continue
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef,)):
                continue
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call):
                    continue
                if isinstance(c.func, ast.Attribute) and \
                        ast.unparse(c.func.value) in aliases:
                    out.append((path, fn, c, c.func.attr))
                elif isinstance(c.func, ast.Name) and c.func.id in direct:
                    out.append((path, fn, c, direct[c.func.id]))
    # innermost function only
    best = {}
    for path, fn, c, name in out:
        k = (path, c.lineno, c.col_offset)
        if k not in best or fn.lineno > best[k][1].lineno:
            best[k] = (path, fn, c, name)
    return list(best.values())


def call_nodes(fn, call):
    """expressions of the positional arguments of a call, also through a tuple
    that is unpacked in it"""
    out = []
    for a in call.args:
        if not isinstance(a, ast.Starred):
            out.append(a)
            continue
        v = a.value
        if isinstance(v, ast.Name) and fn is not None:
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == v.id
                        for t in s.targets):
                    v = s.value
                    break
        if not isinstance(v, (ast.Tuple, ast.List)):
            return []
        out += v.elts
    return out


def bool_implications():
    """Pairs (i, j) of argument positions of the C call such that the Python
    caller guarantees: argument i true => argument j true."""
    out = []
    for path, fn, call, name in extension_calls():
        names = {i: a.id for i, a in enumerate(call_nodes(fn, call))
                 if isinstance(a, ast.Name)}
        for i, a in names.items():
            for j, b in names.items():
                if i != j and _implies(fn, a, b):
                    out.append((i, j))
    return out


def _implies(fn, a, b):
    """after the last binding of b, every binding of a keeps `a => b`"""
    est = False
    for st in fn.body:
        if isinstance(st, ast.If):
            t = st.test
            neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) \
                and isinstance(t.operand, ast.Name) and t.operand.id == b
            neg = neg or (isinstance(t, ast.Compare) and
                          isinstance(t.left, ast.Name) and t.left.id == b and
                          isinstance(t.comparators[0], ast.Constant) and
                          t.comparators[0].value is False)
            if neg and any(isinstance(x, ast.Assign) and
                           isinstance(x.targets[0], ast.Name) and
                           x.targets[0].id == a and
                           isinstance(x.value, ast.Constant) and
                           x.value.value is False for x in st.body):
                if not _binds(st.orelse, a) and not _binds(st.body +
                                                           st.orelse, b):
                    est = True
                    continue
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) \
                and st.targets[0].id == a:
            v = st.value
            if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.And) and \
                    any(isinstance(x, ast.Name) and x.id == b
                        for x in v.values):
                est = True
                continue
            if isinstance(v, ast.Constant) and v.value is False:
                continue
            if isinstance(v, ast.IfExp) and isinstance(v.test, ast.Name) and \
                    v.test.id == b and isinstance(v.orelse, ast.Constant) and \
                    v.orelse.value is False:
                est = True
                continue
            est = False
            continue
        if _binds([st], b):
            est = False
        elif _binds([st], a) and not _only_false([st], a):
            est = False
    return est


def _binds(stmts, name):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and \
                    isinstance(n.ctx, ast.Store):
                return True
    return False


def _only_false(stmts, name):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in n.targets):
                if not (isinstance(n.value, ast.Constant) and
                        n.value.value is False):
                    return False
            elif isinstance(n, (ast.AugAssign, ast.For, ast.With)) and \
                    _binds([n], name) and not isinstance(n, ast.If):
                return False
    return True
