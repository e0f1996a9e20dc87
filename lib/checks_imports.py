"""P22: optional dependencies."""
import ast
import multiprocessing
import os
import re
import sys

import ffi
from cfront import REPO, AnalysisBroken
from core import Result
from driver import Driver
from checks_opts import options
from checks_state import Mod, FUNCS

NAMES = {'pyyaml': 'yaml', 'pillow': 'PIL'}
# packages that come with others
WITH = {'typing_extensions': 'pint', 'mpl_toolkits': 'matplotlib'}
CATCH = {'ModuleNotFoundError', 'ImportError', 'Exception', 'BaseException'}
EXT = 'euphonic._euphonic'


def declared():
    """(required, {extra: packages}) of setup.py / pyproject.toml"""
    req, extra = None, {}

    def name(s):
        n = re.split(r'[<>=!~;\[ ]', s.strip())[0].lower()
        return NAMES.get(n, n.replace('-', '_'))
    p = os.path.join(REPO, 'setup.py')
    if os.path.exists(p):
        with open(p) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.keyword) and n.arg == 'install_requires':
                req = {name(c.value) for c in ast.walk(n.value)
                       if isinstance(c, ast.Constant)}
            if isinstance(n, ast.keyword) and n.arg == 'extras_require' and \
                    isinstance(n.value, ast.Dict):
                for k, v in zip(n.value.keys, n.value.values):
                    extra[k.value] = {name(c.value) for c in ast.walk(v)
                                      if isinstance(c, ast.Constant)}
    if req is None:
        p = os.path.join(REPO, 'pyproject.toml')
        if os.path.exists(p):
            import tomllib
            with open(p, 'rb') as f:
                pr = tomllib.load(f).get('project', {})
            if 'dependencies' in pr:
                req = {name(x) for x in pr['dependencies']}
                extra = {k: {name(x) for x in v} for k, v in
                         pr.get('optional-dependencies', {}).items()}
    if req is None:
        raise AnalysisBroken('no declared dependencies found')
    return req, extra


class Imports:
    def __init__(self):
        self.req, self.extras = declared()
        self.optional = set().union(*self.extras.values()) \
            if self.extras else set()
        self.mods = {}
        for p, t in ffi.modules().items():
            m = Mod(p, t)
            self.mods[m.name] = m

    def targets(self, m, n):
        """dotted modules that an import statement loads"""
        if isinstance(n, ast.Import):
            out = [a.name for a in n.names]
        else:
            base = n.module or ''
            if n.level:
                p = m.name.split('.')
                cut = n.level - (1 if m.pkg else 0)
                p = p[:len(p) - cut] if cut else p
                base = '.'.join(p + ([n.module] if n.module else []))
            out = [base]
            for a in n.names:
                d = f'{base}.{a.name}'
                if d in self.mods or d == EXT:
                    out.append(d)
        return out

    def external(self, d):
        """top-level package outside the standard library, or None"""
        if d == EXT:
            return EXT
        t = d.split('.')[0]
        if t == 'euphonic' or t in sys.stdlib_module_names:
            return None
        return WITH.get(t, t)

    def at_import(self, m):
        """import statements that run when the module is imported"""
        def go(stmts, guard):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    yield s, guard
                elif isinstance(s, FUNCS):
                    continue
                elif isinstance(s, ast.If):
                    if 'TYPE_CHECKING' in ast.unparse(s.test):
                        yield from go(s.orelse, guard)
                    else:
                        yield from go(s.body + s.orelse, guard)
                elif isinstance(s, ast.Try):
                    g = [h for h in s.handlers if catches(h)]
                    yield from go(s.body, g or guard)
                    for h in s.handlers:
                        yield from go(h.body, guard)
                    yield from go(s.orelse + s.finalbody, guard)
                elif hasattr(s, 'body'):
                    yield from go(s.body, guard)
        yield from go(m.tree.body, None)

    def closure(self, name, seen=None):
        """{external package: path of imports} needed to import a module"""
        seen = {} if seen is None else seen
        if name in seen or name not in self.mods:
            return {}
        seen[name] = True
        m = self.mods[name]
        out = {}
        parts = name.split('.')
        if len(parts) > 1:
            for k, v in self.closure('.'.join(parts[:-1]), seen).items():
                out.setdefault(k, v)
        for n, guard in self.at_import(m):
            soft = guard and not any(raises(h) for h in guard)
            for d in self.targets(m, n):
                e = self.external(d)
                if e is not None and not soft:
                    out.setdefault(e, [(m, n)])
                elif d in self.mods and not soft:
                    for k, v in self.closure(d, seen).items():
                        out.setdefault(k, [(m, n)] + v)
        return out


def catches(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any((t.id if isinstance(t, ast.Name) else
                getattr(t, 'attr', '')) in CATCH for t in ts)


def raises(h):
    return any(isinstance(n, ast.Raise) for s in h.body for n in ast.walk(s))


def text(im, m, node, depth=0):
    """string constants in an expression and in what it refers to"""
    out = ''
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out += n.value
        elif isinstance(n, (ast.Name, ast.Attribute)) and depth < 4:
            nm = n.id if isinstance(n, ast.Name) else n.attr
            for k in im.mods.values():
                for s in ast.walk(k.tree):
                    if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and \
                            s.name == nm:
                        out += text(im, k, ast.Module(s.body, []), depth + 2)
                    elif isinstance(s, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == nm
                            for t in s.targets):
                        out += text(im, k, s.value, depth + 2)
    return out


def work(tasks):
    im = Imports()
    got = {}
    out = []

    def on_import(it, s, st):
        m = im.mods.get(it.frame.mod)
        if m is None:
            return
        for d in im.targets(m, s):
            e = im.external(d)
            if e is not None:
                got.setdefault(e, (m.path, s.lineno))
            elif d in im.mods:
                for k, v in im.closure(d).items():
                    got.setdefault(k, (m.path, s.lineno))
    d = Driver({'import': on_import})
    run0 = d.run

    def run_(*a, **k):
        got.clear()
        return run0(*a, **k)
    d.run = run_

    def on(drv, name, key, info, kind, r, self_, st):
        a = info.node.args
        out.append((name, drv.fix, info.mod,
                    [x.arg for x in a.args + a.kwonlyargs + (
                        [a.kwarg] if a.kwarg else [])],
                    dict(got), drv.it.path(info.mod), info.node.lineno))
    d.run_all(on=on, tasks=tasks)
    return out, d.broken


def allowed(im, name, mod, params, fix):
    """optional packages an entry point may need"""
    ok = set(im.closure(mod)) | im.req
    p, v = fix if fix is not None else (None, None)
    if 'phonopy' in name.lower():
        ok |= {'yaml', 'h5py'}
        if p == 'phonon_format' and v == 'yaml' or \
                p == 'fc_format' and v == 'phonopy':
            ok -= {'h5py'}
    if 'use_c' in params or 'kwargs' in params or \
            'debye_waller' in params or name.split('.')[-1].startswith(
                ('sample_sphere', 'from_force_constants')) or any(
                x.endswith('kwargs') for x in params):
        ok.add(EXT)
    if p == 'use_c' and v is False:
        ok.discard(EXT)
    return ok


def isolated():
    """The declared dependencies (setup.py) are compared with what is imported:
    the transitive closure of the imports that run when each library module is
    imported, and, by abstract interpretation, the imports each public function
    and method runs, for every value of every option.  Only the plotting and
    the Brille module, and command-line tools that draw, may need an optional
    package to be imported; only the Phonopy readers may import yaml and h5py,
    h5py not when the format asked for is not HDF5; and the C extension is not
    imported with use_c=False.  Each import of an optional package in the
    library is in a try statement whose handler raises an error that says what
    to install; that of the extension has a handler; all others are declared
    or guarded."""
    res = Result()
    im = Imports()
    own = {'euphonic.plot': {'matplotlib'}, 'euphonic.brille': {'brille'}}

    def add(rule, path, line, msg, key):
        res.add(rule, path, line, msg, key)
    for name, m in sorted(im.mods.items()):
        cli = name.startswith('euphonic.cli.')
        if cli and any(isinstance(s, ast.FunctionDef) and s.name == 'main'
                       for s in m.tree.body) and 'matplotlib' in [
                im.external(d) for n in ast.walk(m.tree) if isinstance(
                    n, (ast.Import, ast.ImportFrom))
                for d in im.targets(m, n)]:
            ok = im.req | {'matplotlib'}
            if 'brille' in name:
                ok = ok | {'brille'}
        else:
            ok = im.req | own.get(name, set())
        for e, path in sorted(im.closure(name).items()):
            res.count('packages needed to import a module')
            if e in ok:
                continue
            pm, pn = path[0]
            via = ' -> '.join(f'{a.path}:{b.lineno}' for a, b in path)
            add('import', pm.path, pn.lineno, f'importing {name} needs '
                f'`{e}`, which is ' + ('optional' if e in im.optional or
                                       e == EXT else 'not declared') +
                f' ({via})', f'{name}|{e}')
        # guards
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            for d in im.targets(m, n):
                e = im.external(d)
                if e is None or e in im.req:
                    continue
                res.count('imports of optional packages')
                if cli and e in im.optional:
                    continue
                hs = guards(m, n)
                if e in im.optional:
                    top = hs[-1] if hs else None
                    if top is None or not any(
                            says(im, m, h) for h in top):
                        add('guard', m.path, n.lineno, f'`{e}` is optional: '
                            'that it is missing does not raise an error that '
                            'says what to install', f'{name}|guard|{e}')
                elif not hs:
                    add('guard', m.path, n.lineno, f'`{e}` may be missing: '
                        'its import is not in a try statement',
                        f'{name}|guard|{e}')
    d = Driver()
    tasks = d.all_choices()
    tasks += sorted({(n, (p, v)) for n, p, vs in options(d) for v in vs} -
                    set(tasks))
    jobs = max(1, min(8, os.cpu_count() or 1))
    parts = [[] for _ in range(jobs*6)]
    for i, t in enumerate(tasks):
        parts[i % len(parts)].append(t)
    parts = [p for p in parts if p]
    if jobs > 1:
        with multiprocessing.get_context('fork').Pool(jobs) as pool:
            outs = pool.map(work, parts, chunksize=1)
    else:
        outs = [work(p) for p in parts]
    seen = set()
    for recs, broken in outs:
        for e, x in broken:
            res.notes.append(f'not interpreted: {e}: {x}')
        for name, fix, mod, params, got, path, line in recs:
            res.count('interpretations')
            ok = allowed(im, name, mod, params, fix)
            for e, (p, l) in sorted(got.items()):
                res.sample(f'{name} {fix or ""}: {e} ({p}:{l})')
                if e in ok or (name, e) in seen or e not in \
                        im.optional | {EXT}:
                    continue
                seen.add((name, e))
                w = '' if fix is None else f' with {fix[0]}={fix[1]!r}'
                add('use', p, l, f'{name}{w} imports `{e}`, which it has no '
                    'need of', f'{name}|{e}')
    return res


def guards(m, n):
    """handlers of the try statements around an import, innermost first"""
    out = []
    x = n
    while x in m.parent:
        p = m.parent[x]
        if isinstance(p, ast.Try) and x in p.body:
            hs = [h for h in p.handlers if catches(h)]
            if hs:
                out.append(hs)
        x = p
    return out


def says(im, m, h):
    for s in h.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Raise) and n.exc is not None:
                t = text(im, m, n.exc)
                for a in ast.walk(n.exc):
                    if isinstance(a, ast.Name):
                        for q in h.body:
                            if isinstance(q, ast.Assign) and any(
                                    isinstance(t2, ast.Name) and t2.id == a.id
                                    for t2 in q.targets):
                                t += text(im, m, q.value)
                if 'install' in t.lower():
                    return True
    return False
