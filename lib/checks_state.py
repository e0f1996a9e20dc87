"""P21: process-wide state."""
import ast
import os
import re

import ffi
from core import Result

# calls that change the state of the process
CHANGES = re.compile(r'''^(
 numpy\.(seterr|seterrcall|setbufsize|set_printoptions|set_string_function)|
 numpy\.random\.(seed|set_state)|random\.(seed|setstate)|
 warnings\.(filterwarnings|simplefilter|resetwarnings)|
 os\.(chdir|fchdir|putenv|unsetenv|umask|nice|setuid|setgid|chroot|setpgid|
      setsid|dup2|sched_setaffinity)|
 os\.environ\.(update|pop|clear|setdefault|popitem|__setitem__)|
 sys\.(setrecursionlimit|settrace|setprofile|setswitchinterval|
       set_int_max_str_digits)|
 sys\.(path|modules|meta_path|path_hooks|argv)\.(append|insert|extend|remove|
       pop|clear|update|setdefault)|
 locale\.setlocale|signal\.(signal|alarm|setitimer)|
 gc\.(disable|enable|freeze|set_threshold)|
 logging\.(basicConfig|disable|captureWarnings|setLoggerClass)|
 decimal\.setcontext|time\.tzset|socket\.setdefaulttimeout|
 faulthandler\.enable|atexit\.register|resource\.setrlimit|
 threading\.(settrace|setprofile|stack_size)|
 multiprocessing\.set_start_method|
 matplotlib\.(use|rc|rcdefaults|rc_file|rc_file_defaults|set_loglevel)|
 matplotlib\.rcParams\.(update|pop|clear|setdefault)|
 matplotlib\.style\.use|matplotlib\.style\.core\.use|
 matplotlib\.pyplot\.(rc|rcdefaults|style\.use|ion|ioff|switch_backend|xkcd|
       set_loglevel|set_cmap|rcParams\.update)|
 pint\.(set_application_registry)|json\.JSONEncoder\.default|
 scipy\.special\.seterr|scipy\.fft\.(set_backend|set_global_backend)
)$'''.replace('\n', '').replace(' ', ''))
# state that is reached by a name
STATE = re.compile(r'^(os\.environ|sys\.(path|modules|argv|stdout|stderr|stdin|'
                   r'excepthook)|matplotlib\.rcParams|'
                   r'matplotlib\.pyplot\.rcParams|numpy\.|matplotlib\.|'
                   r'warnings\.|json\.|scipy\.|pint\.|os\.|builtins\.)')
# contexts that undo a change when they are left
UNDOES = {
    'warnings': r'warnings\.catch_warnings',
    'numpy': r'numpy\.(errstate|printoptions)',
    'decimal': r'decimal\.localcontext',
    'matplotlib': r'(matplotlib|matplotlib\.pyplot)\.(rc_context|'
                  r'style\.context|style\.core\.context)|'
                  r'matplotlib\.style\.context',
    'os': r'(contextlib\.chdir|unittest\.mock\.patch\.dict)',
}
REGISTRY = {'define', 'load_definitions', 'enable_contexts',
            'disable_contexts', 'add_context', 'remove_context',
            'setup_matplotlib', 'set_fmt_locale', '_switch_context_cache'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
            'setdefault', 'popitem', 'add', 'discard', 'sort', 'reverse',
            'fill', 'resize', 'put', 'itemset', 'setflags', 'move_to_end',
            'appendleft', '__setitem__', 'ito', 'ito_base_units'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Mod:
    def __init__(self, path, tree):
        self.path, self.tree = path, tree
        nm = path[:-3].replace(os.sep, '.')
        self.pkg = nm.endswith('.__init__')
        self.name = nm[:-9] if self.pkg else nm
        self.parent = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.scopes = {}

    def up(self, n, kinds):
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, kinds):
                return n
        return None

    def scope(self, fn):
        """names bound in a function or the module: dotted import, or None"""
        if fn in self.scopes:
            return self.scopes[fn]
        out = {}
        self.scopes[fn] = out
        node = fn if fn is not None else self.tree
        glob = set()
        if fn is not None:
            a = fn.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [
                    y for y in (a.vararg, a.kwarg) if y]:
                out[x.arg] = None
        assigns = []
        for n in walk_own(node):
            if isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        out[al.asname] = al.name
                    else:
                        t = al.name.split('.')[0]
                        out[t] = t
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    p = self.name.split('.')
                    cut = n.level - (1 if self.pkg else 0)
                    p = p[:len(p) - cut] if cut else p
                    base = '.'.join(p + ([n.module] if n.module else []))
                for al in n.names:
                    out[al.asname or al.name] = f'{base}.{al.name}'
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                assigns.append((n.targets[0].id, n.value))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.setdefault(n.id, None)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                    n is not node:
                out[n.name] = f'{self.name}.{n.name}' if fn is None else None
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out[n.name] = None
        for k, v in assigns:
            if isinstance(v, (ast.Name, ast.Attribute)) and out.get(k) is None:
                d = self.dotted(v, fn)
                if d is not None and [x for x, _ in assigns].count(k) == 1:
                    out[k] = d
                    continue
            out.setdefault(k, None)
        for g in glob:
            out.pop(g, None)
        return out

    def lookup(self, name, fn):
        """(function or None for the module, dotted name or None), or None if
        the name is a builtin"""
        while True:
            sc = self.scope(fn)
            if name in sc:
                return fn, sc[name]
            if fn is None:
                return None
            fn = self.up(fn, FUNCS)

    def dotted(self, n, fn):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        r = self.lookup(n.id, fn)
        if r is None:
            base = f'builtins.{n.id}'
        elif r[1] is None:
            return None
        else:
            base = r[1]
        return '.'.join([base] + parts[::-1])


def walk_own(node):
    """nodes of a function or module, not of functions within it"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(
        node, FUNCS) else (list(node.body) if isinstance(node.body, list)
                           else [node.body])
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS):
            continue
        if isinstance(n, ast.ClassDef):
            continue
        todo += list(ast.iter_child_nodes(n))


class Check:
    def __init__(self):
        self.res = Result()
        self.mods = {}
        for p, t in ffi.modules().items():
            if p.endswith('_version.py'):
                continue
            m = Mod(p, t)
            self.mods[m.name] = m
        self.calls = {}         # dotted name of a function -> call sites

    # names re-exported by the package
    def real(self, d):
        for _ in range(5):
            if d is None:
                return None
            parts = d.split('.')
            hit = False
            for i in range(len(parts) - 1, 0, -1):
                m = self.mods.get('.'.join(parts[:i]))
                if m is not None:
                    t = m.scope(None).get(parts[i])
                    if t and t != '.'.join(parts[:i + 1]):
                        d = '.'.join([t] + parts[i + 1:])
                        hit = True
                    break
            if not hit:
                return d
        return d

    def run(self):
        res = self.res
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    fn = m.up(n, FUNCS)
                    d = self.real(m.dotted(n.func, fn))
                    if d is None and isinstance(n.func, ast.Attribute):
                        d = '?.' + n.func.attr
                    if d:
                        self.calls.setdefault(d, []).append((m, n, fn))
                        if d.split('.')[0] == 'euphonic':
                            self.calls.setdefault('?.' + d.split('.')[-1],
                                                  []).append((m, n, fn))
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    self.call(m, n)
                    res.count('calls')
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                                    ast.Delete, ast.For, ast.With)):
                    for t in targets(n):
                        self.store(m, n, t)
                        res.count('stores')
                elif isinstance(n, ast.Global):
                    self.glob(m, n)
                elif isinstance(n, FUNCS):
                    self.defaults(m, n)
                    res.count('functions')
        res.count('modules', len(self.mods))
        return res

    def add(self, rule, m, n, msg, key):
        self.res.add(rule, m.path, n.lineno, msg, f'{m.path}|{key}')

    # -- calls ----------------------------------------------------------------
    def call(self, m, n):
        fn = m.up(n, FUNCS)
        d = self.real(m.dotted(n.func, fn))
        if d is None and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Call):
            d0 = self.real(m.dotted(n.func.value.func, fn))
            if d0 and d0.endswith('get_application_registry'):
                d = 'euphonic.ureg.' + n.func.attr
        if d is None:
            return
        parts = d.split('.')
        if CHANGES.match(d):
            if d == 'pint.set_application_registry' and fn is None:
                return
            self.res.sample(f'{m.path}:{n.lineno}: {d}')
            if not self.undone(m, n, fn, d, set()):
                self.add('state', m, n, f'`{d}` changes the state of the '
                         f'process ({where(m, fn)}), and nothing undoes it on '
                         'every path', d)
        elif len(parts) >= 3 and d.startswith('euphonic.ureg.') and \
                parts[-1] in REGISTRY and fn is not None:
            self.add('state', m, n, f'`{ast.unparse(n.func)}` changes the unit '
                     f'registry each time {where(m, fn)} runs', d)
        elif parts[-1] in MUTATORS and fn is not None and len(parts) > 1:
            self.mutated(m, n, fn, n.func.value
                         if isinstance(n.func, ast.Attribute) else None)
        if d == 'builtins.setattr' and n.args and fn is not None:
            self.attr_store(m, n, fn, n.args[0], 'an attribute')
        if d.startswith('builtins.globals') and fn is not None:
            self.add('module', m, n, f'`globals()` in {where(m, fn)}', d)

    def undone(self, m, n, fn, d, seen):
        """the change is lexically within a context that undoes it, or a
        try/finally that restores, or all callers are"""
        fam = d.split('.')[0]
        rx = re.compile('^(' + UNDOES.get(fam, r'$.') + ')$')
        if d.startswith('matplotlib'):
            rx = re.compile('^(' + UNDOES['matplotlib'] + ')$')
        x = n
        while x in m.parent and x is not fn:
            x = m.parent[x]
            if isinstance(x, (ast.With, ast.AsyncWith)):
                for w in x.items:
                    if any(isinstance(c, ast.Call) and rx.match(
                            self.real(m.dotted(c.func, fn)) or '')
                            for c in ast.walk(w.context_expr)):
                        return True
                for c in ast.walk(x):
                    if isinstance(c, ast.Call) and isinstance(
                            c.func, ast.Attribute) and \
                            c.func.attr == 'enter_context' and c.args and \
                            isinstance(c.args[0], ast.Call) and rx.match(
                                self.real(m.dotted(c.args[0].func, fn)) or ''):
                        return True
        if fn is None:
            return False
        # old = change(...); try: ... finally: change(old)
        for t in walk_own(fn):
            if isinstance(t, ast.Try) and t.finalbody:
                fin = [c for s in t.finalbody for c in ast.walk(s)
                       if isinstance(c, ast.Call)]
                if any(self.same_call(m, c, fn, d) for c in fin):
                    inside = any(n in ast.walk(s) for s in
                                 t.finalbody + t.body)
                    blk = m.parent.get(t)
                    before = False
                    for f in ('body', 'orelse', 'finalbody'):
                        b = getattr(blk, f, None)
                        if isinstance(b, list) and t in b:
                            i = b.index(t)
                            before = i > 0 and any(
                                n in ast.walk(s) for s in b[max(0, i-2):i])
                    if inside or before:
                        return True
        # a helper: look where it is called
        if fn in seen or isinstance(fn, ast.Lambda):
            return False
        sites = self.sites(m, fn)
        return bool(sites) and fn.name.startswith('_') and all(
            self.undone(m2, n2, f2, d, seen | {fn}) for m2, n2, f2 in sites)

    def same_call(self, m, c, fn, d):
        return self.real(m.dotted(c.func, fn)) == d

    def sites(self, m, fn):
        up = m.up(fn, FUNCS + (ast.ClassDef,))
        if up is None:
            return self.calls.get(f'{m.name}.{fn.name}', [])
        return self.calls.get('?.' + fn.name, [])

    # -- stores ---------------------------------------------------------------
    def store(self, m, n, t):
        fn = m.up(t, FUNCS)
        if isinstance(t, ast.Subscript):
            d = self.real(m.dotted(t.value, fn))
            if d and STATE.match(d + '.') and (
                    fn is not None or d.split('.')[0] != 'euphonic'):
                if not self.undone(m, n, fn, d, set()):
                    self.add('state', m, n, f'`{ast.unparse(t)}` is set '
                             f'({where(m, fn)}): state of the process', d)
                return
            if fn is not None:
                self.mutated(m, n, fn, t.value)
        elif isinstance(t, ast.Attribute):
            self.attr_store(m, n, fn, t.value, t.attr)

    def attr_store(self, m, n, fn, base, attr):
        d = self.real(m.dotted(base, fn))
        if d is not None and d.split('.')[0] != 'builtins':
            r = d.split('.')[0]
            if fn is None and r == 'euphonic':
                return
            self.add('module', m, n, f'`{ast.unparse(base)}.{attr}` is set '
                     f'({where(m, fn)}): it belongs to a module, class or '
                     'registry, not to an object made by the caller',
                     f'{d}.{attr}')
            return
        if fn is None:
            return
        if self.is_class(m, fn, base):
            self.add('class', m, n, f'attribute `{attr}` of a class is set '
                     f'({where(m, fn)}), which changes all its objects',
                     f'{attr}')

    def is_class(self, m, fn, e):
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'type' and len(e.args) == 1:
            return True
        if isinstance(e, ast.Name) and isinstance(fn, ast.FunctionDef):
            f = fn
            while f is not None:
                if isinstance(f, ast.FunctionDef) and any(
                        isinstance(x, ast.Name) and x.id == 'classmethod'
                        for x in f.decorator_list) and f.args.args and \
                        f.args.args[0].arg == e.id:
                    return True
                f = m.up(f, FUNCS)
            for s in walk_own(fn):
                if isinstance(s, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in s.targets) and not isinstance(
                            s.value, ast.Name) and self.is_class(
                                m, fn, s.value):
                    return True
        return False

    def mutated(self, m, n, fn, base):
        """an object is changed in a function: not one of a module or class"""
        while isinstance(base, ast.Subscript):
            base = base.value
        if base is None:
            return
        d = self.real(m.dotted(base, fn))
        if d is not None:
            if isinstance(base, ast.Name):
                r = m.lookup(base.id, fn)
                if r is None:
                    return
            if d.split('.')[0] in ('euphonic',) or STATE.match(d):
                self.add('module', m, n, f'`{ast.unparse(base)}` belongs to a '
                         f'module or class and is changed in {where(m, fn)}',
                         d)
            return
        if isinstance(base, ast.Name):
            r = m.lookup(base.id, fn)
            if r is not None and r[0] is None and fn is not None:
                self.add('module', m, n, f'`{base.id}`, an object of the '
                         f'module, is changed in {where(m, fn)}', base.id)
        elif isinstance(base, ast.Attribute):
            if self.is_class(m, fn, base.value):
                self.add('class', m, n, f'`{ast.unparse(base)}` belongs to a '
                         f'class and is changed in {where(m, fn)}', base.attr)
            elif isinstance(base.value, ast.Name) and base.value.id == 'self':
                self.class_attr(m, n, fn, base.attr)

    def class_attr(self, m, n, fn, attr):
        """self.x is changed: is x an object of the class, not of self?"""
        cls = m.up(fn, ast.ClassDef)
        if cls is None:
            return
        own = [s for s in cls.body if isinstance(s, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == attr for t in s.targets)]
        if own and not any(
                isinstance(t, ast.Attribute) and t.attr == attr and
                isinstance(t.value, ast.Name) and t.value.id == 'self'
                for s in ast.walk(cls) for t in targets(s)):
            self.add('class', m, n, f'`self.{attr}` is an object of the class '
                     f'{cls.name}, shared by all its instances, and is '
                     f'changed in {where(m, fn)}', attr)

    def glob(self, m, n):
        fn = m.up(n, FUNCS)
        if fn is None:
            return
        for s in walk_own(fn):
            for t in targets(s):
                if isinstance(t, ast.Name) and t.id in n.names:
                    self.add('module', m, s, f'the global `{t.id}` is rebound '
                             f'in {where(m, fn)}', t.id)
                    return

    # -- default arguments and caches -----------------------------------------
    def defaults(self, m, fn):
        a = fn.args
        pos = a.posonlyargs + a.args
        ds = [None]*(len(pos) - len(a.defaults)) + list(a.defaults)
        for p, v in list(zip(pos, ds)) + list(zip(a.kwonlyargs,
                                                  a.kw_defaults)):
            if not isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                                  ast.DictComp, ast.Call)):
                continue
            self.res.count('mutable defaults')
            self.default(m, fn, p.arg)
        if isinstance(fn, ast.Lambda):
            return
        for x in fn.decorator_list:
            f = x.func if isinstance(x, ast.Call) else x
            d = self.real(m.dotted(f, m.up(fn, FUNCS))) or ''
            if re.match(r'functools\.(lru_cache|cache)$', d):
                ret = ast.unparse(fn.returns) if fn.returns else ''
                if not re.match(r'^(str|int|float|bool|None|complex|bytes|Path|'
                                r'Unit|frozenset.*|[Oo]ptional\[(str|int|float|'
                                r'bool)\]|[Tt]uple\[[^\[]*(str|int|float|bool|, '
                                r'|\.\.\.)+\])$', ret):
                    self.add('cache', m, fn, f'{where(m, fn)} returns the same '
                             'object to every caller (cached)', fn.name)

    def default(self, m, fn, p):
        rebound = [s for s in walk_own(fn) for t in targets(s)
                   if isinstance(t, ast.Name) and t.id == p]
        for s in walk_own(fn):
            bad = None
            for t in targets(s):
                b = t
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(t, ast.Subscript) and isinstance(
                        b, ast.Name) and b.id == p:
                    bad = t
            if isinstance(s, ast.AugAssign) and isinstance(
                    s.target, ast.Name) and s.target.id == p:
                bad = s.target
            if isinstance(s, ast.Call) and isinstance(
                    s.func, ast.Attribute) and s.func.attr in MUTATORS and \
                    isinstance(s.func.value, ast.Name) and \
                    s.func.value.id == p:
                bad = s.func
            if bad is not None and not any(
                    r.lineno < bad.lineno and not isinstance(
                        r, ast.AugAssign) for r in rebound):
                self.add('default', m, s, f'the default value of `{p}` is '
                         f'changed in {where(m, fn)}, for all later calls',
                         f'{getattr(fn, "name", "lambda")}|{p}')
                return


def targets(s):
    ts = []
    if isinstance(s, (ast.Assign, ast.Delete)):
        ts = list(s.targets)
    elif isinstance(s, (ast.AugAssign, ast.For)):
        ts = [s.target]
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        ts = [s.target]
    elif isinstance(s, ast.With):
        ts = [w.optional_vars for w in s.items if w.optional_vars]
    out = []
    while ts:
        t = ts.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            ts += t.elts
        elif isinstance(t, ast.Starred):
            ts.append(t.value)
        else:
            out.append(t)
    return out


def where(m, fn):
    if fn is None:
        return 'when the module is imported'
    if isinstance(fn, ast.Lambda):
        return 'a lambda'
    cls = m.up(fn, FUNCS + (ast.ClassDef,))
    return f'{cls.name}.{fn.name}' if isinstance(cls, ast.ClassDef) \
        else fn.name


def untouched():
    """Every call, assignment and default argument of every module, command
    line tools included, is resolved through the imports and aliases in scope.
    A call that changes the state of the process (numpy error handling and
    print options, random seeds, warning filters, environment, working
    directory, locale, matplotlib defaults, ...) must be within a context that
    undoes it, in the function itself or in all callers of a private helper, or
    be restored in a finally block.  No function rebinds a global, sets an
    attribute of a module, class or registry, or changes an object that
    belongs to a module or class, or a default argument; no function that
    returns mutable objects is memoised."""
    return Check().run()
