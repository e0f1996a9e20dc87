"""C front end: clang's typed AST (JSON) -> a small resolved program.

Only /usr/bin/clang-18 is run, and only to parse.  Stub headers replace
Python.h / numpy / omp.h so that API calls stay visible as calls.
"""
import json
import os
import re
import subprocess
from functools import lru_cache

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18'


class AnalysisBroken(Exception):
    pass


class E:
    """Expression / statement node."""
    __slots__ = ('k', 'v', 'a', 'line', 'type', 'extra')

    def __init__(self, k, v=None, a=(), line=0, type_='', extra=None):
        self.k = k
        self.v = v
        self.a = list(a)
        self.line = line
        self.type = type_
        self.extra = extra

    def __repr__(self):
        return show(self)

    def walk(self):
        yield self
        for c in self.a:
            if c is not None:
                yield from c.walk()


class Var:
    __slots__ = ('id', 'name', 'type', 'scope', 'static', 'line', 'func',
                 'file')

    def __init__(self, id_, name, type_, scope, static=False, line=0,
                 func=None, file=None):
        self.id = id_
        self.name = name
        self.type = type_
        self.scope = scope       # 'local' 'param' 'global'
        self.static = static
        self.line = line
        self.func = func
        self.file = file

    @property
    def is_array(self):
        return bool(re.search(r'\[[^\]]*\]', self.type)) and '(*)' not in self.type

    @property
    def is_pointer(self):
        return self.type.rstrip().endswith('*') or '(*)' in self.type \
            or self.type in ('ZheevdFunc',)

    def __repr__(self):
        return self.name


class Func:
    def __init__(self, name, file, params, body, line, rtype, static):
        self.name = name
        self.file = file
        self.params = params
        self.body = body
        self.line = line
        self.rtype = rtype
        self.static = static

    def __repr__(self):
        return f'{self.file}:{self.name}'


def show(e):
    if e is None:
        return ''
    k = e.k
    if k == 'num':
        return str(e.v)
    if k == 'str':
        return '"%s"' % e.v
    if k == 'var':
        return e.v.name
    if k == 'fn':
        return e.v
    if k == 'un':
        if e.v in ('post++', 'post--'):
            return show(e.a[0]) + e.v[4:]
        if e.v in ('pre++', 'pre--'):
            return e.v[3:] + show(e.a[0])
        return e.v + show(e.a[0])
    if k in ('bin', 'assign'):
        return '(%s %s %s)' % (show(e.a[0]), e.v, show(e.a[1]))
    if k == 'call':
        return '%s(%s)' % (show(e.a[0]), ', '.join(show(x) for x in e.a[1:]))
    if k == 'idx':
        return '%s[%s]' % (show(e.a[0]), show(e.a[1]))
    if k == 'mem':
        return '%s.%s' % (show(e.a[0]), e.v)
    if k == 'cond':
        return '(%s ? %s : %s)' % tuple(show(x) for x in e.a)
    if k == 'sizeof':
        return 'sizeof(%s)' % e.v
    return k


class _Conv:
    def __init__(self, tu, cfile, files_ok):
        self.vars = {}
        self.funcs = []
        self.globals = []
        self.file = cfile
        self.curline = 0
        self.curfile = ''
        self.files_ok = files_ok
        self._annotate(tu)
        self.src = open(cfile).read().splitlines()
        for n in tu.get('inner', []):
            if not self._ok(n):
                continue
            if n['kind'] == 'FunctionDecl':
                self._func(n)
            elif n['kind'] == 'VarDecl':
                v = Var(n['id'], n.get('name', ''), n['type']['qualType'],
                        'global', n.get('storageClass') == 'static',
                        self._line(n), None, self._file(n))
                self.vars[n['id']] = v
                init = None
                if n.get('inner'):
                    init = self.expr(n['inner'][-1])
                self.globals.append((v, init,
                                     n.get('storageClass') == 'extern'))

    # -- locations ---------------------------------------------------------
    def _annotate(self, root):
        stack = [root]
        # document order, iterative
        cur_line, cur_file = 0, ''

        def loc(d):
            nonlocal cur_line, cur_file
            if 'spellingLoc' in d or 'expansionLoc' in d:
                for key in ('spellingLoc', 'expansionLoc'):
                    if key in d:
                        loc(d[key])
                        d['_l'], d['_f'] = cur_line, cur_file
                return
            if 'offset' in d or 'line' in d:
                if 'file' in d:
                    cur_file = d['file']
                if 'line' in d:
                    cur_line = d['line']
                d['_l'], d['_f'] = cur_line, cur_file

        def go(n):
            # recursion depth is bounded by expression depth; use a stack
            work = [n]
            while work:
                x = work.pop()
                if isinstance(x, tuple):
                    loc(x[0])
                    continue
                if isinstance(x, list):
                    work.extend(reversed(x))
                    continue
                items = []
                for key, val in x.items():
                    if key == 'loc':
                        items.append((val,))
                    elif key == 'range':
                        items.append((val.get('begin', {}),))
                        items.append((val.get('end', {}),))
                    elif isinstance(val, (dict, list)) and key == 'inner':
                        items.append(val)
                work.extend(reversed(items))
        go(root)

    def _line(self, n):
        d = n.get('loc') or {}
        if '_l' in d:
            return d['_l']
        d = n.get('range', {}).get('begin', {})
        return d.get('_l', 0)

    def _file(self, n):
        d = n.get('loc') or {}
        if '_f' in d:
            return d['_f']
        return n.get('range', {}).get('begin', {}).get('_f', '')

    def _ok(self, n):
        f = os.path.abspath(os.path.join(os.path.dirname(self.file),
                                         self._file(n) or '/'))
        return f in self.files_ok

    # -- declarations ------------------------------------------------------
    def _func(self, n):
        params, body = [], None
        for c in n.get('inner', []):
            if c['kind'] == 'ParmVarDecl':
                v = Var(c['id'], c.get('name', ''), c['type']['qualType'],
                        'param', False, self._line(c), n['name'], self.file)
                self.vars[c['id']] = v
                params.append(v)
            elif c['kind'] == 'CompoundStmt':
                self.fname = n['name']
                body = self.stmt(c)
        rtype = n['type']['qualType'].split('(')[0].strip()
        if body is not None:
            self.funcs.append(Func(n['name'], self.file, params, body,
                                   self._line(n), rtype,
                                   n.get('storageClass') == 'static'))

    def _decl(self, n):
        v = Var(n['id'], n.get('name', ''), n['type']['qualType'], 'local',
                n.get('storageClass') == 'static', self._line(n), self.fname,
                self.file)
        self.vars[n['id']] = v
        init = None
        if n.get('init') and n.get('inner'):
            init = self.expr(n['inner'][-1])
        return E('decl', v, [init] if init is not None else [], self._line(n),
                 v.type)

    # -- statements --------------------------------------------------------
    def stmt(self, n):
        if not n or 'kind' not in n:
            return None
        k, line = n['kind'], self._line(n)
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            return E('block', None, [self.stmt(c) for c in inner], line)
        if k == 'DeclStmt':
            return E('block', 'decl', [self._decl(c) for c in inner
                                       if c['kind'] == 'VarDecl'], line)
        if k == 'IfStmt':
            inner = [c for c in inner if c.get('kind')]
            parts = [self.expr(inner[0]), self.stmt(inner[1]),
                     self.stmt(inner[2]) if len(inner) > 2 else None]
            return E('if', None, parts, line)
        if k == 'ForStmt':
            init, _, cond, inc, body = inner
            return E('for', None, [
                self.stmt(init) if init.get('kind') else None,
                self.expr(cond) if cond.get('kind') else None,
                self.expr(inc) if inc.get('kind') else None,
                self.stmt(body)], line)
        if k == 'WhileStmt':
            inner = [c for c in inner if c.get('kind')]
            return E('while', None, [self.expr(inner[0]),
                                     self.stmt(inner[-1])], line)
        if k == 'DoStmt':
            return E('do', None, [self.stmt(inner[0]), self.expr(inner[1])],
                     line)
        if k == 'SwitchStmt':
            inner = [c for c in inner if c.get('kind')]
            return E('switch', None, [self.expr(inner[0]),
                                      self.stmt(inner[-1])], line)
        if k == 'CaseStmt':
            return E('case', None, [self.expr(inner[0]),
                                    self.stmt(inner[-1])], line)
        if k == 'DefaultStmt':
            return E('default', None, [self.stmt(inner[-1])], line)
        if k == 'ReturnStmt':
            return E('return', None, [self.expr(c) for c in inner], line)
        if k == 'GotoStmt':
            return E('goto', n.get('targetLabelDeclId'), [], line)
        if k == 'LabelStmt':
            return E('label', n.get('declId'), [self.stmt(inner[0])], line,
                     extra=n.get('name'))
        if k in ('BreakStmt', 'ContinueStmt', 'NullStmt'):
            return E(k[:-4].lower(), None, [], line)
        if k.startswith('OMP') and k.endswith('Directive'):
            body = None
            for c in inner:
                if c.get('kind'):
                    body = c
            while body is not None and body['kind'] in ('CapturedStmt',
                                                        'CapturedDecl'):
                body = next((c for c in body.get('inner', [])
                             if c.get('kind')), None)
            # the directive's own line
            pline = n.get('range', {}).get('begin', {}).get('_l', line)
            return E('omp', k[3:-9], [self.stmt(body)], pline,
                     extra=self._pragma(pline))
        return E('expr', None, [self.expr(n)], line)

    def _pragma(self, line):
        txt = ''
        i = line - 1
        while 0 <= i < len(self.src):
            t = self.src[i].rstrip()
            txt += t.rstrip('\\') + ' '
            if not t.endswith('\\'):
                break
            i += 1
        clauses = {}
        for m in re.finditer(r'(\w+)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)', txt):
            clauses.setdefault(m.group(1), []).append(m.group(2))
        words = set(re.findall(r'\w+', re.sub(r'\([^)]*\)', ' ', txt)))
        return clauses, words, txt.strip()

    # -- expressions -------------------------------------------------------
    def expr(self, n):
        k = n['kind']
        line = self._line(n)
        inner = n.get('inner', [])
        t = n.get('type', {}).get('qualType', '')
        if k in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr',
                 'ExprWithCleanups', 'CompoundLiteralExpr'):
            e = self.expr(inner[-1])
            if n.get('castKind') == 'NullToPointer':
                return E('null', None, [], line, t)
            return e
        if k == 'CStyleCastExpr':
            e = self.expr(inner[-1])
            if n.get('castKind') == 'NullToPointer':
                return E('null', None, [], line, t)
            return E('cast', t, [e], line, t)
        if k == 'IntegerLiteral':
            return E('num', int(n['value']), [], line, t)
        if k == 'CharacterLiteral':
            return E('num', n['value'], [], line, t)
        if k == 'FloatingLiteral':
            return E('num', float(n['value']), [], line, t)
        if k == 'StringLiteral':
            return E('str', n['value'][1:-1], [], line, t)
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'FunctionDecl':
                return E('fn', r['name'], [], line, t)
            if r['kind'] == 'EnumConstantDecl':
                return E('enum', r['name'], [], line, t)
            v = self.vars.get(r['id'])
            if v is None:
                v = Var(r['id'], r.get('name', ''), r['type']['qualType'],
                        'extern')
                self.vars[r['id']] = v
            return E('var', v, [], line, v.type)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                op = ('post' if n.get('isPostfix') else 'pre') + op
            return E('un', op, [self.expr(inner[0])], line, t)
        if k == 'BinaryOperator':
            a, b = self.expr(inner[0]), self.expr(inner[1])
            op = n['opcode']
            return E('assign' if op == '=' else 'bin', op, [a, b], line, t)
        if k == 'CompoundAssignOperator':
            return E('assign', n['opcode'], [self.expr(inner[0]),
                                             self.expr(inner[1])], line, t)
        if k == 'ConditionalOperator':
            return E('cond', None, [self.expr(c) for c in inner], line, t)
        if k == 'CallExpr':
            return E('call', None, [self.expr(c) for c in inner], line, t)
        if k == 'ArraySubscriptExpr':
            return E('idx', None, [self.expr(c) for c in inner], line, t)
        if k == 'MemberExpr':
            return E('mem', n.get('name'), [self.expr(inner[0])], line, t)
        if k == 'UnaryExprOrTypeTraitExpr':
            at = n.get('argType', {}).get('qualType')
            if at is None and inner:
                at = inner[0].get('type', {}).get('qualType', '')
            return E('sizeof', at, [], line, t)
        if k == 'InitListExpr':
            return E('init', None, [self.expr(c) for c in inner
                                    if c.get('kind')], line, t)
        if k == 'ImplicitValueInitExpr':
            return E('num', 0, [], line, t)
        if k == 'StmtExpr':
            return E('stmtexpr', None, [self.stmt(inner[0])], line, t)
        return E('other', k, [self.expr(c) for c in inner
                              if c.get('kind', '').endswith(('Expr',
                                                             'Operator',
                                                             'Literal'))],
                 line, t)


class Program:
    def __init__(self):
        self.funcs = {}
        self.by_file = {}
        self.globals = []
        self.files = []

    def lookup(self, name, file=None):
        if file and (file, name) in self.by_file:
            return self.by_file[(file, name)]
        return self.funcs.get(name)


def c_sources():
    cdir = os.path.join(REPO, 'c')
    out = []
    for root, _, files in os.walk(cdir):
        for f in sorted(files):
            if f.endswith('.c'):
                out.append(os.path.join(root, f))
    return out


@lru_cache(None)
def load():
    """Parse every C source of the extension module."""
    prog = Program()
    cdir = os.path.join(REPO, 'c')
    srcs = c_sources()
    if not srcs:
        raise AnalysisBroken('no C sources found under c/')
    ok = set()
    for root, _, files in os.walk(cdir):
        for f in files:
            ok.add(os.path.abspath(os.path.join(root, f)))
    for s in srcs:
        p = subprocess.run(
            [CLANG, '-fsyntax-only', '-w', '-fopenmp', '-std=gnu99',
             '-Wno-error=implicit-function-declaration',
             '-Wno-error=incompatible-function-pointer-types',
             '-Wno-error=int-conversion',
             '-I' + os.path.join(VERIF, 'stubs'), '-I' + cdir,
             '-Xclang', '-ast-dump=json', s],
            capture_output=True, text=True, cwd=cdir)
        if not p.stdout:
            raise AnalysisBroken(f'clang produced no AST for {s}: '
                                 + p.stderr[:400])
        if p.returncode != 0:
            raise AnalysisBroken(f'clang cannot parse {s}: ' + p.stderr[:600])
        conv = _Conv(json.loads(p.stdout), s, ok)
        prog.files.append(s)
        for f in conv.funcs:
            prog.by_file[(s, f.name)] = f
            prog.funcs.setdefault(f.name, f)
        prog.globals.extend((v, i) for v, i, ext in conv.globals if not ext)
    return prog


def rel(path):
    return os.path.relpath(path, REPO)


# ---------------------------------------------------------------------------
def strip(e):
    while e is not None and e.k == 'cast':
        e = e.a[0]
    return e


def base_ptr(e):
    """(root var or None, offset exprs) of a pointer expression."""
    offs = []
    e = strip(e)
    while e is not None:
        if e.k == 'var':
            return e.v, offs
        if e.k == 'bin' and e.v in '+-':
            l, r = strip(e.a[0]), strip(e.a[1])
            if _ptrish(l):
                offs.append((e.v, r))
                e = l
                continue
            if _ptrish(r):
                offs.append((e.v, l))
                e = r
                continue
            return None, offs
        if e.k == 'un' and e.v == '&':
            inner = strip(e.a[0])
            if inner.k == 'idx':
                offs.append(('+', inner.a[1]))
                e = strip(inner.a[0])
                continue
            e = inner
            continue
        if e.k == 'un' and e.v == '*':
            e = strip(e.a[0])
            continue
        if e.k == 'idx':
            offs.append(('+', e.a[1]))
            e = strip(e.a[0])
            continue
        if e.k == 'un' and e.v.endswith(('++', '--')):
            e = strip(e.a[0])
            continue
        return None, offs
    return None, offs


def _ptrish(e):
    if e.k == 'var':
        return e.v.is_pointer or e.v.is_array
    if e.k == 'bin' and e.v in '+-':
        return _ptrish(strip(e.a[0])) or _ptrish(strip(e.a[1]))
    if e.k == 'un' and e.v == '&':
        return True
    if e.k == 'un' and e.v.endswith(('++', '--')):
        return _ptrish(strip(e.a[0]))
    t = e.type or ''
    return t.rstrip().endswith('*') or '[' in t
